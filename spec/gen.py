#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from spec/props.py (so that the two stay in step)."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
from spec.props import PROPS, NA
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in PROPS + [x["p"] for x in NA]:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": x["p"]["id"], "reason": x["reason"]} for x in NA]}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1); open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
