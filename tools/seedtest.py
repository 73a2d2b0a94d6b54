#!/usr/bin/env python3
"""Validate planted bugs in scratch copies.
usage: seedtest.py [--no-tests] [--no-check] [--jobs N] ID...   (ID = folder in seeded/)
For each: patch applies; stable tests pass with it; demo 0 without / nonzero with; does the check catch it."""
import sys, os, json, subprocess, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="*"); ap.add_argument("--no-tests", action="store_true"); ap.add_argument("--no-check", action="store_true"); ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--checks", default="")
a = ap.parse_args()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def env(d):
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             MPLCONFIGDIR="/opt/venv/mplconfig", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPATH=d + "/src")
    return e

def tests(d):
    w = tempfile.mkdtemp(prefix="seedx-")
    base = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=150", "--continue-on-collection-errors", "-o", "junit_family=xunit2"]
    p1 = subprocess.Popen(base + [f"--junitxml={w}/cli.xml"] + sorted("tests/" + f for f in os.listdir(d + "/tests") if f.startswith("test_cli")), cwd=d, env=env(d), stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
    subprocess.run(base + ["-n", "2", f"--junitxml={w}/rest.xml", "tests", "--ignore-glob=*/test_cli*.py"], cwd=d, env=env(d), stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
    p1.wait()
    ok = set()
    for f in ("cli.xml", "rest.xml"):
        if not os.path.exists(f"{w}/{f}"): continue
        for tc in ET.parse(f"{w}/{f}").getroot().iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                ok.add(tc.get("classname") + "::" + tc.get("name"))
    shutil.rmtree(w)
    return sorted(stable - ok)

def demo(i, d):
    w = tempfile.mkdtemp(prefix="seedd-")
    for f in os.listdir(f"{V}/seeded/{i}"):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(f"{V}/seeded/{i}/{f}", w)
    try:
        p = subprocess.run(["bash", w + "/demo.sh"], cwd=d, env=env(d), capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-300:]
    finally:
        shutil.rmtree(w)

def one(i):
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix=f"seed-{i}-")
    shutil.rmtree(d); subprocess.run(["cp", "-a", "/repo", d], check=True)
    r = {"id": i, "prop": meta["property"]}
    try:
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
        rc0, o0 = demo(i, d)
        p = subprocess.run(["git", "-C", d, "apply", f"{V}/seeded/{i}/patch.diff"], capture_output=True, text=True)
        if p.returncode: r["apply"] = p.stderr; return r
        rc1, o1 = demo(i, d)
        r["demo"] = f"{rc0}/{rc1}" + ("" if rc0 == 0 and rc1 != 0 else " BAD " + o0 + o1)
        if not a.no_check:
            for c in (a.checks.split(",") if a.checks else [meta["property"]]):
                e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
                w = tempfile.mkdtemp(prefix="seedv-")   # private copy of /verif so evidence is not clobbered
                for s in ("bin", "harness", "spec"):
                    shutil.copytree(f"{V}/{s}", f"{w}/{s}")
                for s in ("known_findings.json", "properties.jsonl"):
                    if os.path.exists(f"{V}/{s}"): shutil.copy(f"{V}/{s}", w)
                q = subprocess.run([w + "/bin/check", c, "quick"], cwd=w, env=e, capture_output=True, text=True)
                r["check " + c] = f"rc={q.returncode} " + ("CAUGHT " if q.returncode == 1 and f"VIOLATION property={c}" in q.stdout else "MISSED ") + "|".join(l.strip()[:160] for l in q.stdout.splitlines() if l.startswith("  clause"))[:330] + (q.stderr[-200:] if q.returncode not in (0, 1) else "")
                shutil.rmtree(w)
        if not a.no_tests:
            f = tests(d); r["tests"] = "pass" if not f else "FAIL " + str(f[:4])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r

ids = a.ids or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(one, ids):
        print(json.dumps(r), flush=True)
