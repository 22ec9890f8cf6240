#!/opt/venv/bin/python
"""python check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-j N] [-v]   |   --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


import faulthandler, signal
faulthandler.register(signal.SIGUSR1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from engine import run
    if a.replay:
        import json
        d = json.load(open(a.replay))
        import importlib
        cpp = None
        if getattr(importlib.import_module("harness." + d["module"]), "CPP", False):
            from engine import cpp
            cpp.build()
        r = run.replay(d["module"], d["fn"], d["params"], [d["run"]])[0]
        if cpp:
            cpp.cleanup()
        print(json.dumps({k: v for k, v in r.items() if k != "env"}, indent=1))
        sys.exit(0 if r["status"] == "ok" else 1)
    sys.exit(run.check(a.property, a.tier, a.only, a.j, a.v))


if __name__ == "__main__":
    main()
