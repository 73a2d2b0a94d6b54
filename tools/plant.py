#!/usr/bin/env python3
"""Write seeded/<id>/ from an edit description file (python):
 BUG(id, prop, file, old, new, needs, breaks, demo)   several edits: file/old/new may be lists."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def BUG(id, prop, file, old, new, needs, breaks, demo):
    if isinstance(file, str): file, old, new = [file], [old], [new]
    d = tempfile.mkdtemp(prefix="plant-"); shutil.rmtree(d)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", d], check=True)
    try:
        for f, o, n in zip(file, old, new):
            p = f"{d}/src/SALib/{f}"; s = open(p).read()
            if s.count(o) != 1: print(f"{id}: {f}: old text occurs {s.count(o)} times"); return
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        t = f"{V}/seeded/{id}"; os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "w").write(diff); open(t + "/demo.py", "w").write(demo.lstrip()); open(t + "/demo.sh", "w").write(SH)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(t + "/meta.json", "w"), indent=1)
        print("planted", id)
    finally:
        shutil.rmtree(d)
exec(open(sys.argv[1]).read())
