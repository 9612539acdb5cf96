#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        c = f"bash check.sh {p['crate']} {p['id']}"
        checks.append({
            "property": p["id"], "quick_cmd": c + " --quick", "thorough_cmd": c + " --thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["level_note"],
        })
m = {"version": 1, "setup_cmd": props.SETUP, "checks": checks, "not_applicable": na, "notes": props.NOTES}
if props.HOOKS:
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
