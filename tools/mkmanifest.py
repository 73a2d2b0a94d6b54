#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}   # property -> reason, for properties that are genuinely out of reach
NOTES = json.load(open(os.path.join(R, "tools", "levelnotes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "harness", "checks", i.lower() + ".py")) and i not in NA:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "technique": n.get("technique", "TLA+ specification checked with TLC; conformance by trace validation and replay"),
                       "level": "model_checking",
                       "level_note": n.get("note", "Design model checked exhaustively within small constants; conformance on the explored cases only.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). bin/check ID [quick|thorough]; see DESIGN.md. No hooks in /repo: every observation is made through the public API."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
