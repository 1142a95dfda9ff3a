#!/usr/bin/env python3
"""Regenerate MANIFEST.json from harness/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PROPS:
        s = plan.PROPS[i]
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i} quick", "thorough_cmd": f"./check.py {i} thorough",
            "technique": s.get("technique", plan.TECHNIQUE), "level": "exploration", "level_note": s.get("note", plan.NOTE),
        })
    else:
        na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na, "notes": plan.NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
