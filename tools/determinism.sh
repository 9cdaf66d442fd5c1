#!/bin/bash
# tools/determinism.sh [RUNS] [PROPS...]: the same seeds under several hash seeds and worker counts must give the same event logs.
here=$(cd "$(dirname "$0")/.." && pwd)
runs=${1:-2000}; shift
props=${*:-$(cd "$here/props" && ls c*.py | sed 's/\.py//' | grep -v common | tr a-z A-Z)}
tmp=$(mktemp -d)
bad=0
for p in $props; do
    i=0
    for cfg in "0 8" "1 3" "77 5"; do
        set -- $cfg
        PYTHONHASHSEED=$1 "$here/bin/check" "$p" --runs "$runs" --jobs "$2" --wall 300 --digests "$tmp/$p.$i" > "$tmp/$p.$i.log"
        i=$((i + 1))
    done
    if cmp -s "$tmp/$p.0" "$tmp/$p.1" && cmp -s "$tmp/$p.0" "$tmp/$p.2"; then
        echo "$p deterministic over $(wc -l < "$tmp/$p.0") runs"
    else
        bad=1
        echo "$p DIVERGES: $(diff "$tmp/$p.0" "$tmp/$p.1" | head -3 | tr '\n' ' ') $(diff "$tmp/$p.0" "$tmp/$p.2" | head -3 | tr '\n' ' ')"
        tail -3 "$tmp/$p.0.log"
    fi
done
rm -rf "$tmp"
exit $bad
