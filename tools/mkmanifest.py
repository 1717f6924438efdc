#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when tools/p_<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = json.load(open(V + "/tools/levels.json"))
NA = {"C19": "quantitative convergence and rounding accuracy of floating-point iterations: a TLA+ model says nothing about rates or rounding; only exact or schedule-level statements (C07-C12) are decided"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/tools/p_%s.py" % i.lower()):
        n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 /verif/run.py %s" % i, "thorough_cmd": "python3 /verif/run.py %s --thorough" % i,
                       "evidence_file": "/verif/evidence/%s.json" % i, "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Explicit specification in TLA+ (/verif/spec), checked with TLC; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
