#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist (run: python3 tools/mkmanifest.py)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TODO = "No check yet: the machinery for this property has not been built."
NA = {}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    m = V + "/pbt/props/%s.py" % i.lower()
    if not os.path.exists(m):
        na.append({"property": i, "reason": NA.get(i, TODO)})
        continue
    t = {k.targets[0].id: k.value for k in ast.parse(open(m).read()).body if isinstance(k, ast.Assign) and isinstance(k.targets[0], ast.Name)}
    tech = ast.literal_eval(t["TECHNIQUE"])
    note = ast.literal_eval(t["NOTE"])
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3-vt -m pbt.main %s" % i,
                   "thorough_cmd": "VERIF_TIER=thorough python3-vt -m pbt.main %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3-vt -m pbt.build", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
