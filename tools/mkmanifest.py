#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "technique": c["technique"], "level": c.get("level", "exploration"),
                            "level_note": c.get("level_note", c["rule"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
