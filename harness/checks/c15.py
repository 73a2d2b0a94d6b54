"""C15: discrepancy indices (spec/Discrepancy.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.analyze import discrepancy
import distlib
METHODS = ["WD", "CD", "MD", "L2-star"]


def disc(m, x, y):
    """the four discrepancies in two dimensions (L2-star unsquared)"""
    P = np.column_stack([x, y]); n = len(P); Z = np.abs(P - .5)
    if n > 2000:        # block by block: the pairwise terms are means over all pairs
        def pair(A, Za):
            d = np.abs(A[:, None] - P[None])
            if m == "WD": return np.prod(1.5 - d * (1 - d), axis=2).sum()
            if m == "CD": return np.prod(1 + Za[:, None] / 2 + Z[None] / 2 - d / 2, axis=2).sum()
            if m == "MD": return np.prod(15 / 8 - Za[:, None] / 4 - Z[None] / 4 - .75 * d + .5 * d * d, axis=2).sum()
            return np.prod(1 - np.maximum(A[:, None], P[None]), axis=2).sum()
        t = sum(pair(P[k:k + 500], Z[k:k + 500]) for k in range(0, n, 500)) / n ** 2
        if m == "WD": return -16 / 9 + t
        if m == "CD": return (13 / 12) ** 2 - 2 * np.prod(1 + Z / 2 - Z ** 2 / 2, axis=1).mean() + t
        if m == "MD": return (19 / 12) ** 2 - 2 * np.prod(5 / 3 - Z / 4 - Z ** 2 / 4, axis=1).mean() + t
        return math.sqrt(max(0, 1 / 9 - .5 * np.prod(1 - P ** 2, axis=1).mean() + t))
    d = np.abs(P[:, None] - P[None])
    if m == "WD": return -16 / 9 + np.prod(1.5 - d * (1 - d), axis=2).mean()
    if m == "CD": return (13 / 12) ** 2 - 2 * np.prod(1 + Z / 2 - Z ** 2 / 2, axis=1).mean() + np.prod(1 + Z[:, None] / 2 + Z[None] / 2 - d / 2, axis=2).mean()
    if m == "MD": return (19 / 12) ** 2 - 2 * np.prod(5 / 3 - Z / 4 - Z ** 2 / 4, axis=1).mean() + np.prod(15 / 8 - Z[:, None] / 4 - Z[None] / 4 - .75 * d + .5 * d * d, axis=2).mean()
    return math.sqrt(max(0, 1 / 9 - .5 * np.prod(1 - P ** 2, axis=1).mean() + np.prod(1 - np.maximum(P[:, None], P[None]), axis=2).mean()))


def run(ctx):
    ctx.neighbours(discrepancy)
    big = ctx.thorough
    ctx.model("MCDiscrepancy", f"SPECIFICATION Spec\nCONSTANTS\n Q = {3 if big else 2}\n NMAX = 3\nINVARIANTS NonNegative AxesSymmetric OrderFree Reflect ScaleFree\nCHECK_DEADLOCK FALSE\n", cover=["Add"], workers=6)
    rnd, g = ctx.rnd, ctx.nprng

    def check(p, X, Y, m, vals, i, desc):
        form = i % 5
        XX = [X, np.asfortranarray(X), np.repeat(X, 2, 0)[::2], X, X.astype(int) if np.all(X == np.round(X)) else X][form]
        YY = [Y, Y, np.repeat(Y, 2)[::2], Y.reshape(-1, 1)[:, 0], Y][form]
        q = ProblemSpec(copy.deepcopy(p)) if form == 3 else copy.deepcopy(p)
        Si = ctx.call(discrepancy.analyze, q, XX, YY, method=m) if m != "WD" or i % 2 else ctx.call(discrepancy.analyze, q, XX, YY)
        ctx.count(m); ctx.traces += 1
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        sh = np.array(vals) / np.sum(vals)
        gr = p.get("groups")
        if gr and len(set(gr)) > 1:
            names = list(dict.fromkeys(gr)); want = [np.mean([s for s, a in zip(sh, gr) if a == n]) for n in names]
        else: names, want = list(p["names"]), list(sh)
        got = np.asarray(Si["s_discrepancy"], float)
        if [str(a) for a in Si["names"]] != names or got.shape != (len(names),): ctx.bad("entries", desc, dict(Si)); return
        if got.min() < 0 or (not gr and not close(got.sum(), 1, 1e-9)): ctx.bad("share", desc, got)
        for n, a, b in zip(names, got, want):
            if not close(a, b, 1e-7, 1e-9): ctx.bad("value", dict(desc, entry=n), f"expected {b}, got {a}"); return
    cases, meta = [], []
    for i in range(80 if big else 40):
        D = rnd.randint(1, 4); n = rnd.randint(2, 6); m = METHODS[i % 4]
        qs = [rnd.choice([1, 2, 3, 4]) for _ in range(D)]
        x = [[rnd.randint(0, q) for _ in range(n)] for q in qs]
        r = rnd.choice([1, 2, 3, 4]); y = [rnd.randint(0, r) for _ in range(n)]; y[0], y[-1] = 0, r
        cases.append(dict(m=m, x=x, y=y, q=qs, r=r))
    for i, (c, e) in enumerate(zip(cases, ctx.oracle("DiscOracle", cases))):
        D = len(c["x"]); vals = [rat(v) for v in e["vals"]]
        if c["m"] == "L2-star": vals = [math.sqrt(max(0, v)) for v in vals]
        for j in range(D):
            if not close(disc(c["m"], np.array(c["x"][j]) / c["q"][j], np.array(c["y"]) / c["r"]), vals[j], 1e-9, 1e-9): raise MachineryError("mirror disagrees with the specification")
        if sum(vals) < 1e-9: continue
        p = distlib.problem(rnd, D, None if i % 2 else [rnd.randrange(D) for _ in range(D)])
        lo = [rnd.choice([0, -3, 7]) for _ in range(D)]; w = [rnd.choice([1, 2]) for _ in range(D)]
        p["bounds"] = [[l, l + q * a] for l, q, a in zip(lo, c["q"], w)]
        X = np.array([[l + a * v for v in col] for col, l, a in zip(c["x"], lo, w)], float).T
        Y = np.array(c["y"], float) * rnd.choice([1, .5, 1000.0, .01, .25]) + rnd.choice([0, -7.0, 100, .3, .9, -.5])
        check(p, X, Y, c["m"], vals, i, dict(problem=p, X=X, Y=Y, method=c["m"]))
        if ctx.full: return
    for i in range(48 if big else 24):
        D = rnd.randint(2, 8) if i % 5 else rnd.randint(9, 14); n = rnd.choice([10, 50, 128, 300] if i % 6 else [515, 700, 1030]); m = METHODS[i % 4]
        if i == 3 or big and i % 8 == 3: D, n, m = 2, rnd.choice([5500, 9000]), rnd.choice(METHODS)
        p = distlib.problem(rnd, D, None if i % 3 else [rnd.randrange(rnd.choice([3, 5])) for _ in range(D)], None if i % 2 else ["unif", "logunif"] * 8)
        if p.get("dists"): p["dists"] = p["dists"][:D]; p["bounds"] = p["bounds"][:D]
        U = g.random((n, D)); X = np.array(distlib.scale(p, U))
        b = np.array(p["bounds"], float); T = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
        Y = np.sin(5 * U[:, 0]) + U[:, -1] ** 2 + .1 * g.random(n)
        Y = Y * rnd.choice([1, 1, 30.0, .02]) + rnd.choice([0, .4, -2.0, 50])
        y = (Y - Y.min()) / (Y.max() - Y.min())
        check(p, X, Y, m, [disc(m, T[:, j], y) for j in range(D)], i, dict(problem=p, n=n, method=m, large=True))
        if ctx.full: return
    p = dict(num_vars=2, names=["a", "b"], bounds=[[0, 1]] * 2); X = g.random((20, 2)); Y = X[:, 0]
    for m in ("wd", "XX", "", None):
        ctx.count("domain")
        Si = ctx.call(discrepancy.analyze, p, X, Y, method=m)
        if not is_err(Si): ctx.bad("unknown-method-accepted", dict(method=m), Si)
