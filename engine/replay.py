"""Runs a harness on concrete inputs against the unmodified modules of /repo (own process)."""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings


LONG = 50


class DoesNotEnd(BaseException):
    pass


def too_long(*_):
    raise DoesNotEnd(f"no end after {LONG} s")


def main():
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, root)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from engine.api import ConcreteWorld, AssumptionFailed
    job = json.load(sys.stdin)
    hm = importlib.import_module("harness." + job["module"])
    fn = getattr(hm, job["fn"])
    res = []
    signal.signal(signal.SIGALRM, too_long)
    hung = False
    for run in job["runs"]:
        if hung:
            res.append({"status": "assume", "n_ok": 0, "env": {}})
            continue
        W = ConcreteWorld({k: v for k, v in run["env"].items() if v is not None}, run.get("choices", ()),
                          job.get("params"), run.get("uf"), loose=job.get("loose", 1.0))
        r = {"status": "ok"}
        signal.setitimer(signal.ITIMER_REAL, LONG)
        try:
            fn(W)
        except AssumptionFailed:
            r["status"] = "assume"
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            r["status"] = "exc"
            hung = isinstance(e, DoesNotEnd)
            r["exc"] = type(e).__name__ + ": " + str(e)[:300]
            tb = traceback.extract_tb(e.__traceback__)
            r["where"] = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:]]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            W.close()
        if W.fails:
            r["fails"] = W.fails[:20]
            if r["status"] == "ok":
                r["status"] = "fail"
        r["n_ok"] = W.n_ok
        r["env"] = W.env
        res.append(r)
    json.dump(res, out)
    out.close()


if __name__ == "__main__":
    main()
