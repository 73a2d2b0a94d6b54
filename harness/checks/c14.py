"""C14: regional sensitivity analysis (spec/Rsa.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.analyze import rsa
import distlib
from checks.c13 import safe


def cvm(a, b):
    z = np.concatenate([a, b]); n, m = len(a), len(b)
    srt = np.sort(z)
    rk = lambda v: (np.searchsorted(srt, v, "left") + np.searchsorted(srt, v, "right") + 1) / 2
    ra, rb = np.sort(rk(a)), np.sort(rk(b))
    u = n * ((ra - np.arange(1, n + 1)) ** 2).sum() + m * ((rb - np.arange(1, m + 1)) ** 2).sum()
    return u / (n * m * (n + m)) - (4 * n * m - 1) / (6 * (n + m))


def mirror(x, y, target, B):
    x, y = np.asarray(x, float), np.asarray(y, float)
    t, v = (x, y) if target == "X" else (y, x)
    n = len(t); srt = np.sort(t); out = []
    pos = [(n - 1) * k / B for k in range(B + 1)]
    q = [srt[int(h)] + (h - int(h)) * (srt[min(int(h) + 1, n - 1)] - srt[int(h)]) for h in pos]
    for k in range(B):
        b = ((t >= q[0]) if k == 0 else (t > q[k])) & (t <= q[k + 1])
        if b.sum() < 2 or (~b).sum() < 2 or len(set(y[b])) < 2: out.append(math.nan)
        else: out.append(cvm(v[b], v[~b]))
    return out


def run(ctx):
    ctx.neighbours(rsa)
    big = ctx.thorough
    ctx.model("MCRsa", f"SPECIFICATION Spec\nCONSTANTS\n N = {5 if big else 4}\n BMAX = 3\n YMAX = {1 if big else 2}\nINVARIANTS Partition Disjoint SameAsColumn Symmetric\nCHECK_DEADLOCK FALSE\n", cover=["Skip", "Compare"], workers=6)
    rnd, g = ctx.rnd, ctx.nprng
    cases = []
    for i in range(90 if big else 44):
        D = rnd.randint(1, 4); n = rnd.randint(4, 13)
        B = rnd.choice([s for s in (1, 2, 2, 3, 4, 5) if safe(n, s)])
        x = [[rnd.randint(0, 4) for _ in range(n)] if i % 3 == 0 else rnd.sample(range(60), n) for _ in range(D)]
        y = [rnd.randint(0, 3) for _ in range(n)] if i % 4 == 0 else [rnd.randint(0, 50) for _ in range(n)]
        if len(set(y)) == 1: y[0] += 1
        cases.append(dict(x=x, y=y, B=B, target="XY"[i % 2]))

    def check(p, X, Y, B, target, cols, i, desc):
        form = i % 5
        XX = [X, np.asfortranarray(X), np.repeat(X, 2, 0)[::2], X, X.astype(int) if np.all(X == np.round(X)) else X][form]
        q = ProblemSpec(copy.deepcopy(p)) if form == 3 else copy.deepcopy(p)
        Si = ctx.call(rsa.analyze, q, XX, np.repeat(Y, 2)[::2] if form == 2 else Y, bins=B, target=target)
        ctx.count("analyses"); ctx.traces += 1
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        gr = p.get("groups")
        if gr and len(set(gr)) > 1:
            names = list(dict.fromkeys(gr)); want = []
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for nme in names: want.append(np.nanmean([c for c, q in zip(cols, gr) if q == nme], axis=0))
        else: names, want = list(p["names"]), cols
        if [str(a) for a in Si["names"]] != names or Si["target"] != target or not np.allclose(Si["bins"], np.arange(B) / B):
            ctx.bad("entries", desc, dict(Si)); return
        for nme, w in zip(names, want):
            if nme not in Si or len(Si[nme]) != B: ctx.bad("entries", desc, dict(Si)); return
            for k in range(B):
                if not close(Si[nme][k], w[k], 1e-9, 1e-9):
                    ctx.bad("cvm", dict(desc, entry=nme, bin=k), f"expected {w[k]}, got {Si[nme][k]}"); return
    for i, (c, e) in enumerate(zip(cases, ctx.oracle("RsaOracle", cases))):
        D = len(c["x"]); cols = [[rat(q) for q in col] for col in e["cols"]]
        for j in range(D):
            if not np.allclose(mirror(c["x"][j], c["y"], c["target"], c["B"]), cols[j], rtol=1e-9, atol=1e-9, equal_nan=True): raise MachineryError("mirror disagrees with the specification")
        p = distlib.problem(rnd, D, None if i % 2 and D > 1 else [rnd.randrange(D) for _ in range(D)])
        X, Y = np.array(c["x"], float).T, np.array(c["y"], float)
        check(p, X, Y, c["B"], c["target"], cols, i, dict(problem=p, X=X, Y=Y, bins=c["B"], target=c["target"]))
        if ctx.full: return
    for i in range(60 if big else 30):
        D = rnd.randint(2, 9) if i % 5 else rnd.randint(10, 16); n = rnd.choice([40, 101, 200, 500]); B = rnd.choice([s for s in (2, 3, 6, 7, 8, 13, 16, 23, 32) if safe(n, s)]); tg = "XY"[i % 2]
        if i % 4 == 1: B = rnd.choice([s for s in (41, 50, 53, 64, 77, 100, 128) if safe(n, s)])
        p = distlib.problem(rnd, D, None if i % 3 else [rnd.randrange(rnd.choice([3, 3, 6])) for _ in range(D)], "mix")
        X = np.array(distlib.scale(p, g.random((n, D)) * .98 + .01))
        if i % 4 == 0: X[:, 0] = np.round(X[:, 0] * 4) / 4
        Y = np.sin(np.argsort(np.argsort(X[:, -1])) / n * 5) + g.random(n)
        if i % 5 == 0: Y = np.round(Y * 3)
        if i % 3 == 1: Y = Y * rnd.choice([1e6, 1e-9, -3e4]) + rnd.choice([0, -5e5, 1e4]) * (i % 2)
        if i % 7 in (2, 3): X[:, 1] = X[:, 1] * rnd.choice([-1e5, 1e-8, 4096.0]) - rnd.choice([0, 4e3])
        check(p, X, Y, B, tg, [mirror(X[:, j], Y, tg, B) for j in range(D)], i, dict(problem=p, n=n, bins=B, target=tg, large=True))
        if ctx.full: return
    # defaults: 20 bins of the output
    p = dict(num_vars=2, names=["a", "b"], bounds=[[0, 1]] * 2); X = g.random((204, 2)); Y = X[:, 0] + g.random(204)
    A = ctx.call(rsa.analyze, p, X, Y)
    if is_err(A) or A["target"] != "Y" or not np.allclose(A["a"], mirror(X[:, 0], Y, "Y", 20), equal_nan=True): ctx.bad("defaults", {}, A)
