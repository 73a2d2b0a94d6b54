#!/usr/bin/env python3
"""DESIGN.md = tools/design.md + the counts of fixes and the table of planted bugs
(from seeded/*/meta.json and tools/bugresults.json, written by tools/seedtest.py --record)."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = open(os.path.join(R, "tools", "design.md")).read()
res = json.load(open(os.path.join(R, "tools", "bugresults.json"))) if os.path.exists(os.path.join(R, "tools", "bugresults.json")) else {}
rows = ["| bug | what it breaks | check | clause |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "/")[:170], r.get("verdict", "?"), r.get("clause", "").replace("|", "/")[:60]))
t = t.replace("@@TABLE@@", "\n".join(rows))
t = t.replace("@@N@@", str(len(json.load(open(os.path.join(R, "known_findings.json")))["fixed"])))
open(os.path.join(R, "DESIGN.md"), "w").write(t)
print(len(rows) - 2, "bugs in table")
