#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(f"{V}/checks.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for i in ids:
    c = cfg.get(i)
    if c and not c.get("na"):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": (c or {}).get("na", "not claimed yet: its contracts are still being written")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Each check expands /repo's current source, extracts the functions under contract and runs the verifier; see DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
