#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose checks exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": NOTES[i]["technique"],
                       "level": "model_checking", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, conformance harness in harness/, drivers in driver/. No hooks are compiled into /repo: the in-package harness is added with go's -overlay."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
