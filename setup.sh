#!/bin/sh
# nothing to build: the encoding is regenerated from /repo on every run.  Smoke test of the tools used.
set -e
cd "$(dirname "$0")"
chmod +x check.py
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, z3, mpmath
s = z3.Solver(); x = z3.Real("x"); s.add(x * x < 0)
assert s.check() == z3.unsat
print("numpy", numpy.__version__, "z3", z3.get_version_string())
P
