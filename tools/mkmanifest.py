#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules (run by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t = TECH.get(i, ["explicit-state enumeration of the real code", ""])
    cmd = f"/opt/venv/bin/python /verif/run.py {i} --tier "
    checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "technique": t[0], "level": "model_checking", "level_note": t[1]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/setup.py", "checks": checks,
     "not_applicable": na,
     "notes": "Bounded explicit-state model checking of the real Python code: every case of a finite, enumerated space is executed on the code in /repo's working tree and compared with an independent reference model (mc/ref.py) or with the relation the property states. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
