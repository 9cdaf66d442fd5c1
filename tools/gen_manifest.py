"""Writes MANIFEST.json from the scenarios present in props/ and the reasons below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(f"{V}/properties.jsonl")]
NA = {
    "N01": "Route matching and parameter conversion is a pure function of the route table and the request; no schedule, "
           "clock, fault or interleaving enters it, so simulation could only dress up input generation.",
    "N02": "URL reversal is a pure function of the route table and the arguments; nothing for a simulator to decide.",
    "N03": "Sequential operations on in-memory multi-dicts: deterministic, single-threaded, fault-free.",
    "N04": "Header-to-decision functions of a static policy and one request; no time, I/O or concurrency is involved.",
    "N05": "Pure computation over configuration, route tables or templates; no nondeterminism to simulate.",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(f"{V}/props/{pid.lower()}.py"):
        checks.append({
            "property": pid,
            "quick_cmd": f"bin/check {pid}",
            "thorough_cmd": f"bin/check {pid} --tier thorough",
            "technique": "deterministic simulation with fault injection: seeded schedules and faults on a simulated "
                         "asyncio/trio loop, ASGI server, clock, threads and disk, against a reference model",
            "level": "exploration",
            "level_note": "Sampled executions of the real code under simulated nondeterminism; every failure replays "
                          "exactly from its minimised tape. Trusts the simulated ASGI server, the reference model in "
                          f"props/{pid.lower()}.py, and that anyio/trio/asyncio behave under the simulated loop as "
                          "under a real one. Says nothing about inputs and schedules that were not drawn.",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check built yet; the plan is in DESIGN.md.")})
doc = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "Replay a reported violation with: bin/check <PROPERTY> --replay <path>. No hooks in /repo: every seam is "
                "a public parameter (ASGI callables, loop, clock) or a stand-in installed by the simulator process."}
json.dump(doc, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
