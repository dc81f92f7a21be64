#!/usr/bin/env python3
"""Regenerate MANIFEST.json: every property with a check under checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        t = TECH.get(i, {})
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python checks/{i}.py --tier quick",
                       "thorough_cmd": f"/opt/venv/bin/python checks/{i}.py --tier thorough",
                       "technique": t.get("technique", "bounded exhaustive exploration of the real code"),
                       "level": "model_checking",
                       "level_note": t.get("note", "Exhaustive within the bounds stated in DESIGN.md; says nothing beyond them.")})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
