#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in CHECKS; the others are listed as not applicable (yet)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "exhaustive bounded exploration of operation histories on the real code against a reference model"
# id: (technique, level, note)
CHECKS = json.load(open(os.path.join(root, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: the schedule and crash checks instrument scratch copies of /repo's packages at build time", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, lv, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                            "technique": t, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
