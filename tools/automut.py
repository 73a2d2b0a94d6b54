#!/usr/bin/env python3
"""Generic mutants of a source file, each run through the checks that should see it (a gap finder, not part of any check).
usage: automut.py [--jobs N] [--max N] [--seed S] [--lines A-B] FILE CHECK[,CHECK...] [FILE CHECKS]...   FILE relative to src/SALib"""
import ast, sys, os, random, subprocess, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ap = argparse.ArgumentParser(); ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--max", type=int, default=30); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--timeout", type=int, default=240); ap.add_argument("pairs", nargs="+")
a = ap.parse_args()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*", ast.Mod: "*"}

def mutants(src):
    tree = ast.parse(src); L = src.split("\n"); off = [0]
    for l in L: off.append(off[-1] + len(l.encode()) + 1)
    B = src.encode(); at = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("cli_parse", "create", "setup", "parse_subargs"): skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef,)):
            for x in n.args.annotations if hasattr(n.args, "annotations") else []: skip |= {id(y) for y in ast.walk(x)}
            for g in n.args.args + n.args.kwonlyargs:
                if g.annotation: skip |= {id(y) for y in ast.walk(g.annotation)}
            if n.returns: skip |= {id(y) for y in ast.walk(n.returns)}
        if isinstance(n, ast.JoinedStr): skip |= {id(x) for x in ast.walk(n)}
    seg = lambda n: B[slice(*at(n))].decode()
    out = []
    def add(n, new): out.append((at(n), new, f"{n.lineno}: {seg(n)[:60]!r} -> {new[:60]!r}"))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1: add(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.JoinedStr)): add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): add(n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int): add(n, str(n.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float): add(n, repr(n.value * 1.5 + (n.value == 0)))
        elif isinstance(n, ast.BoolOp): add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(seg(v) for v in n.values) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): add(n, "(" + seg(n.operand) + ")")
        elif isinstance(n, ast.Call) and len(n.args) >= 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "sqrt", "sort", "sorted", "copy", "deepcopy", "unique", "floor", "ceil", "round", "array", "asarray", "cumsum", "flatten"): add(n, seg(n.args[0]))
        elif isinstance(n, ast.Call) and n.keywords and not any(k.arg is None for k in n.keywords):
            k = n.keywords[-1]; s = seg(n); cut = at(k)[0] - at(n)[0]
            pre = s.encode()[:cut].decode().rstrip().rstrip(","); add(n, pre + ")")
        elif isinstance(n, ast.If) and not n.orelse: add(n.test, "False")
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)): add(n, f"{seg(n.target)} {'-' if isinstance(n.op, ast.Add) else '+'}= {seg(n.value)}")
    res = []
    for (x, y), new, d in out:
        m = (B[:x] + new.encode() + B[y:]).decode()
        try: ast.parse(m)
        except SyntaxError: continue
        if m != src: res.append((m, d))
    return res

jobs = []
for f, chk in zip(a.pairs[::2], a.pairs[1::2]):
    ms = mutants(open("/repo/src/SALib/" + f).read()); random.Random(a.seed).shuffle(ms)
    jobs += [(f, chk.split(","), m, d) for m, d in ms[:a.max]]

def one(j):
    f, chk, m, d = j
    w = tempfile.mkdtemp(prefix="am-", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/r", ignore=shutil.ignore_patterns(".git"))
        open(f"{w}/r/src/SALib/{f}", "w").write(m)
        for x in ("bin", "harness", "spec"): shutil.copytree(V + "/" + x, f"{w}/v/{x}")
        shutil.copy(V + "/known_findings.json", w + "/v"); shutil.copy(V + "/properties.jsonl", w + "/v")
        rs = []
        for c in chk:
            try: r = subprocess.run([w + "/v/bin/check", c, "quick"], env=dict(os.environ, VERIF_REPO=w + "/r", VERIF_SEED="1"), capture_output=True, text=True, cwd=w + "/v", timeout=a.timeout).returncode
            except subprocess.TimeoutExpired: return f"timeout {c} {f}:{d}"
            if r == 1: return f"caught {c} {f}:{d}"
            rs.append(r)
        return f"SURVIVED {rs} {f}:{d}"
    finally: shutil.rmtree(w, ignore_errors=True)

with ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(one, jobs): print(r, flush=True)
