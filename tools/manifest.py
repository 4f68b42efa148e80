#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks which exist (checks/cNN/check.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(V + "/tools/notes.py").read())
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s/check.py" % i.lower()
    if os.path.exists(V + "/" + f) and i in NOTE:
        tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
