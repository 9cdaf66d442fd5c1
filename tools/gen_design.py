"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (written by hand-run sweeps)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "seeded")
caught = json.load(open(os.path.join(here, "tools", "caught.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(caught.get(i, [])) or 'not caught'} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"@SEEDS@|\| planted bug \|(.|\n)*?\n(?=\n|\Z)", lambda m: "\n".join(rows) + "\n", s, count=1)
open(p, "w").write(s)
