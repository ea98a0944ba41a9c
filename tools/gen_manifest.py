#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and checks/*.py (LEVEL, TECHNIQUE, NOTE of each module)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "not claimed yet: its specification and conformance harness are still being built"})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": pid, "quick_cmd": "./check %s --tier quick" % pid, "thorough_cmd": "./check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": consts["TECHNIQUE"],
                   "level": consts.get("LEVEL", "model_checking"), "level_note": consts["NOTE"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; conformance harness in harness/, lib/, checks/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
