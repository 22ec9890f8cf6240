#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location("props", os.path.join(ROOT, "tools", "props.py"))
props = importlib.util.module_from_spec(sp)
sp.loader.exec_module(props)
NA = getattr(props, "NA", {})
TECH = getattr(props, "TECH", {})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in props.PROPS:
    if p["id"] in NA:
        continue
    t, note = TECH.get(p["id"], (
        "symbolic execution of the real Python code + SMT (z3), counterexamples replayed",
        "Holds for all real values of the symbolic inputs within the stated sizes/steps; exact real arithmetic instead of floats; "
        "trusts z3, the expression normaliser (cross-checked numerically) and the numpy model (path witnesses are re-run on the real code)."))
    checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']} --tier quick",
                       thorough_cmd=f"./check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
                       technique=t, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks were needed: nothing in /repo is guarded by this variable", source_commits=[]),
         notes="See DESIGN.md. Genuine defects that were repaired are listed in known_findings.json under fixed.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(props.PROPS), "properties", len(checks), "checks")
