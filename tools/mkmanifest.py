#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in NOTE:
        continue
    tech, note = NOTE[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                   "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech,
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [], "notes": GENERAL}
missing = [p["id"] for p in props if p["id"] not in NOTE]
for i in missing:
    m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing:", missing)
