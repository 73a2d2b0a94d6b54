#!/usr/bin/env python3
"""Merge seedtest.py logs into tools/bugresults.json (verdict and clause per planted bug; tests passed or not)."""
import json, os, re, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(R, "tools", "bugresults.json")
res = json.load(open(f)) if os.path.exists(f) else {}
for log in sys.argv[1:]:
    for l in open(log):
        if not l.startswith("{"): continue
        d = json.loads(l); r = res.setdefault(d["id"], {})
        for k, v in d.items():
            if k.startswith("check "):
                r["verdict"] = k[6:] + (" caught" if "CAUGHT" in v else " **missed**")
                m = re.search(r"clause: (\S+)", v); r["clause"] = m.group(1) if m else ""
        if "tests" in d: r["tests"] = d["tests"]
        if "demo" in d: r["demo"] = d["demo"][:40]
res = {k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(R, "seeded", k))}
json.dump(res, open(f, "w"), indent=1)
print(len(res), [k for k, v in res.items() if "missed" in v.get("verdict", "")], "no check:", [k for k in os.listdir(os.path.join(R, "seeded")) if "verdict" not in res.get(k, {})], "no tests:", len([k for k in os.listdir(os.path.join(R, "seeded")) if res.get(k, {}).get("tests") is None]))
