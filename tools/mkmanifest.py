#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": NOTES[i]["technique"],
            "level": "exploration",
            "level_note": NOTES[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "The check for this property has not been built yet."})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are property-based tests in harness/ (Rust, own generator and runner); no hooks in /repo were needed.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
