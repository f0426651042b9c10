#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/targets.json and checks/notes.json."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l) for l in open("properties.jsonl")]
targets = json.load(open("checks/targets.json"))
notes = json.load(open("checks/notes.json"))
m = {"version": 1, "setup_cmd": "./run setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i.lower() in targets:
        n = notes[i]
        m["checks"].append({"property": i, "quick_cmd": "./run %s quick" % i, "thorough_cmd": "./run %s thorough" % i,
                            "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("reason", "no check built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
