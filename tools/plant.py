#!/opt/venv/bin/python
"""plants one bug: plant(id, prop, [(file, old, new)], demo, needs, breaks) -> seeded/<id>; verifies diff and demo in scratch copies.

run as: tools/plant.py FILE.py, a file of plant(...) calls"""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant_scratch"
HEAD = """import sys
import numpy as np
np.seterr(all="ignore")

def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg)
        sys.exit(1)

"""


def plant(id, prop, edits, demo, needs, breaks):
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", SCR, symlinks=True, ignore=shutil.ignore_patterns("build_dir*", "lib"))
    for f, old, new in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT NOT UNIQUE", f, s.count(old), repr(old)); return
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", SCR, "diff"], capture_output=True, text=True).stdout
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(HEAD + demo.strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo; exit 0 on the unchanged tree, nonzero with the patch\n'
                                    'export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=SCR, capture_output=True, text=True)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/integration/test_function_approximators.py"],
                       cwd=SCR, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=SCR, MPLBACKEND="Agg"))
    ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    good = a.returncode == 0 and b.returncode != 0 and t.returncode == 0 and ap.returncode == 0
    print(id, prop, "OK" if good else "BAD", "clean", a.returncode, "patched", b.returncode, "tests", t.returncode, "apply", ap.returncode,
          "" if good else (a.stdout + a.stderr)[-400:] + (b.stdout + b.stderr)[-300:] + t.stdout[-300:] + ap.stderr)
    if good:
        out = (b.stdout + b.stderr).strip().splitlines()
        print("    ", out[-1] if out else "")


if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(open(f).read(), dict(plant=plant))
    shutil.rmtree(SCR, ignore_errors=True)
