#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(V + "/notes.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py") and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt run.py {i}", "thorough_cmd": f"env VERIF_TIER=thorough python3-vt run.py {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Checks read VERIF_SEED and VERIF_TIER; replay: python3-vt run.py <ID> --replay <file>."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
