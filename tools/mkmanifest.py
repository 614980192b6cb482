"""Writes MANIFEST.json from the property list and the modules in props/."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("For all values within the stated bounds: every path of the real source is "
        "executed with solver-term inputs and the assertion is discharged per path by z3; "
        "sampled paths and every counterexample are replayed on the untouched source. ")
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(V, "props", pid.lower() + ".py")
    if not os.path.isfile(path):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    mod = __import__("props." + pid.lower(), fromlist=["x"])
    checks.append({
        "property": pid,
        "quick_cmd": "%s engine/check.py %s --tier quick" % (PY, pid),
        "thorough_cmd": "%s engine/check.py %s --tier thorough" % (PY, pid),
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the Python source with z3 deciding every branch and assertion",
        "level": "model_checking",
        "level_note": NOTE + "Bounds: " + mod.BOUNDS["quick"] + ". Trusts: " + "; ".join(mod.ASSUMPTIONS) + ".",
    })
json.dump({
    "version": 1,
    "setup_cmd": PY + " -c 'from engine.z3load import z3; print(z3.get_version_string())'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks instrument the source in memory on every run. See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
