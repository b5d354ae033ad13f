#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand; output is committed)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "lib", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"python3 checks/{i}.py quick", "thorough_cmd": f"python3 checks/{i}.py thorough",
                       "technique": NOTES[i]["technique"], "level": "model_checking", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not finished yet")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, C++ drivers in drivers/, one script per property in checks/. Every check compiles its driver from /repo's working tree into a scratch directory that it removes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
