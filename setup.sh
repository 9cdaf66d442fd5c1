#!/bin/bash
# Nothing to compile: check that the interpreter and the simulator load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
import sim.runner
print("simulator loads, python", sys.version.split()[0])
P
