"""C13: PAWN (spec/Pawn.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.analyze import pawn
import distlib
KEYS = ["minimum", "mean", "median", "maximum", "CV", "stdev"]


def safe(n, S):
    """quantile positions whose float evaluation cannot move across a data point"""
    return S & (S - 1) == 0 or all((n - 1) * k % S for k in range(1, S))


def mirror(x, y, S):
    n = len(x); srt = sorted(x); ya = sorted(y); out = []
    pos = [(n - 1) * k / S for k in range(S + 1)]
    q = [srt[int(h)] + (h - int(h)) * (srt[min(int(h) + 1, n - 1)] - srt[int(h)]) for h in pos]
    ya = np.array(ya)
    for k in range(S):
        sel = np.sort([b for a, b in zip(x, y) if q[k] <= a < q[k + 1]])
        if len(sel) == 0: continue
        out.append(max(np.abs(np.searchsorted(sel, ya, "right") / len(sel) - np.searchsorted(ya, ya, "right") / n)))
    return out


def stats(ks):
    if not ks: return [math.nan] * 6
    a = np.array(ks); m = a.mean(); sd = math.sqrt(((a - m) ** 2).mean())
    return [a.min(), m, np.median(a), a.max(), sd / m if m else math.nan, sd]


def expected(p, cols):
    g = p.get("groups")
    if not g or len(set(g)) == 1: return list(p["names"]), cols
    names = list(dict.fromkeys(g))
    return names, [np.mean([c for c, q in zip(cols, g) if q == n], axis=0) for n in names]


def run(ctx):
    ctx.neighbours(pawn)
    big = ctx.thorough
    ctx.model("MCPawn", f"SPECIFICATION Spec\nCONSTANTS\n N = {5 if big else 4}\n SMAX = 3\n YMAX = 2\nINVARIANTS Unit Disjoint AllButTop Ordered Indifferent\nCHECK_DEADLOCK FALSE\n", cover=["Empty", "Compare"], workers=6)
    rnd, g = ctx.rnd, ctx.nprng
    cases, meta = [], []
    for i in range(90 if big else 40):
        D = rnd.randint(1, 4); n = rnd.randint(3, 11)
        S = rnd.choice([s for s in (1, 2, 3, 4, 5) if safe(n, s)])
        top = 4 if i % 3 == 0 else 50
        x = [[rnd.randint(0, top) for _ in range(n)] if i % 3 < 2 else rnd.sample(range(60), n) for _ in range(D)]
        for c in x:
            if len(set(c)) == 1: c[0] += 1
        y = [rnd.randint(0, 5 if i % 2 else 40) for _ in range(n)]
        cases.append(dict(x=x, y=y, S=S))
        meta.append(None)
    res = ctx.oracle("PawnOracle", cases)
    def check(p, X, Y, S, cols, i, desc):
        form = i % 5
        XX = [X, np.asfortranarray(X), np.repeat(X, 2, 0)[::2], X, X.astype(int) if np.all(X == np.round(X)) else X][form]
        q = ProblemSpec(copy.deepcopy(p)) if form == 3 else copy.deepcopy(p)
        YY = np.repeat(Y, 2)[::2] if form == 2 else Y
        Si = ctx.call(pawn.analyze, q, XX, YY, S=S, seed=i) if i % 2 else ctx.call(pawn.analyze, q, XX, YY, S)
        ctx.count("analyses"); ctx.traces += 1
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        names, want = expected(p, cols)
        if [str(a) for a in Si["names"]] != names or any(len(Si[k]) != len(names) for k in KEYS):
            ctx.bad("entries", desc, dict(Si)); return
        for a, key in enumerate(KEYS):
            for j in range(len(names)):
                if not close(Si[key][j], want[j][a], 1e-9, 1e-9):
                    ctx.bad(key, dict(desc, entry=names[j]), f"expected {want[j][a]}, got {Si[key][j]}"); return
    for i, (c, e) in enumerate(zip(cases, res)):
        D = len(c["x"])
        cols = []
        for j, s in enumerate(e["cols"]):
            ks = [rat(q) for q in s["ks"]]
            m = mirror(c["x"][j], c["y"], c["S"])
            st = stats(m)
            if ks:
                sd = math.sqrt(rat(s["var"])); mean = rat(s["mean"])
                w = [rat(s["min"]), mean, rat(s["med"]), rat(s["max"]), sd / mean if mean else math.nan, sd]
            else: w = [math.nan] * 6
            if not np.allclose(st, w, rtol=1e-9, atol=1e-9, equal_nan=True): raise MachineryError(f"mirror disagrees with the specification {st} {w}")
            cols.append(w)
        gr = None if i % 2 else [rnd.randrange(D) for _ in range(D)]
        p = distlib.problem(rnd, D, gr)
        sc = rnd.choice([1.0, 0.25, -2.0, 100.0])      # Y scale (KS is invariant for positive, mirrored for negative)
        X = np.array(c["x"], float).T
        Y = np.array(c["y"], float) if sc < 0 or i % 4 == 1 else np.array(c["y"], float) * sc + 3
        check(p, X, Y, c["S"], cols, i, dict(problem=p, X=X, Y=Y, S=c["S"]))
        if ctx.full: return
    for i in range(60 if big else 28):
        D = rnd.randint(2, 9) if i % 5 else rnd.randint(10, 16); n = rnd.choice([50, 101, 200, 500, 1001]); S = rnd.choice([s for s in (2, 3, 6, 7, 8, 10, 13, 20, 24) if safe(n, s)])
        if i % 4 == 1: S = rnd.choice([s for s in (49, 50, 53, 64, 77, 100, 128, 150) if safe(n, s)])
        p = distlib.problem(rnd, D, None if i % 2 else [rnd.randrange(rnd.choice([3, 3, 6])) for _ in range(D)], "mix")
        X = np.array(distlib.scale(p, g.random((n, D)) * .98 + .01))
        if i % 3 == 0: X[:, 0] = np.round(X[:, 0] * 4) / 4
        Y = np.sin(np.argsort(np.argsort(X[:, -1])) / n * 5) + g.random(n)
        if i % 4 == 0: Y = np.round(Y * 3)
        if i % 4 == 3: Y = Y * rnd.choice([1e6, 1e-9, -3e4]) + rnd.choice([0, 5e5, -1e4]) * (i % 8 == 3)
        if i % 7 == 2: X[:, 1] = X[:, 1] * rnd.choice([-1e5, 1e-8, 4096.0])
        if i % 7 == 5: X[:, 1] = 1e6 + 1e-3 * g.permutation(n); X[:, -1] = -3e4 + 1e-4 * np.argsort(np.argsort(X[:, -1]))      # values that agree in their leading digits
        ok = all(len(set(X[:, j])) > 1 for j in range(D))
        if not ok: continue
        cols = [stats(mirror(X[:, j].tolist(), Y.tolist(), S)) for j in range(D)]
        check(p, X, Y, S, cols, i, dict(problem=p, n=n, S=S, large=True))
        if ctx.full: return
    # default S
    p = dict(num_vars=2, names=["a", "b"], bounds=[[0, 1]] * 2); X = g.random((200, 2)); Y = X[:, 0] + g.random(200)
    A = ctx.call(pawn.analyze, p, X, Y)
    if is_err(A) or not close(A["maximum"][0], stats(mirror(X[:, 0].tolist(), Y.tolist(), 10))[3]): ctx.bad("default-S", {}, A)
