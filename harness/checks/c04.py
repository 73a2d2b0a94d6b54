"""C04: Morris designs follow spec/MorrisTraj.tla."""
import copy, math
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import morris
from morrislib import problem, levels, FINITE


def run(ctx):
    ctx.neighbours(morris)
    big = ctx.thorough
    ctx.model("MCMorrisTraj", f"SPECIFICATION MCSpec\nCONSTANTS\n MaxD = {4 if big else 3}\n Levels = {{2, 4{', 6' if big else ''}}}\n"
              "INVARIANTS OnGrid OneGroupPerStep EachOnce Length\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n", cover=["DoMove"])
    rnd = ctx.rnd
    todo = []
    for D in range(1, 6 if big else 5):
        for grp in [None] + rgs(D):
            for lv in rnd.sample([2, 4, 6, 8, 10, 20], 3 if big else 2):
                todo.append((D, grp, lv, rnd.choice([1, 2, 5]), None))
    for r in range(60 if big else 25):
        D = rnd.randint(1, 15)
        grp = None if r % 3 == 0 else [rnd.randrange(rnd.randint(1, min(D, 7))) for _ in range(D)]
        todo.append((D, grp, rnd.choice([2, 4, 4, 6, 12, 32, 100]), rnd.choice([1, 3, 10, 30]), None))
    for r in range(30 if big else 12):
        D = rnd.randint(1, 5)
        grp = None if r % 2 == 0 else [rnd.randrange(3) for _ in range(D)]
        todo.append((D, grp, rnd.choice([2, 4, 6]), 4, [rnd.choice(list(FINITE)) for _ in range(D)]))
    todo.append((30, None, 4, 3, None)); todo.append((40, [j % 11 for j in range(40)], 4, 3, None)); todo.append((3, None, 4, 300, None))
    cases, meta = [], []
    for i, (D, grp, lv, N, dists) in enumerate(todo):
        p = problem(D, grp, i, dists)
        q = copy.deepcopy(p)
        if i % 2:
            q = ProblemSpec(q)
        kw = dict(seed=i) if i % 3 else dict(seed=np.random.default_rng(i))
        if i % 5 or lv != 4:
            kw["num_levels"] = lv
        X = ctx.call(morris.sample, q, N, **kw)
        desc = dict(problem=p, N=N, levels=lv, seed=i)
        if is_err(X):
            ctx.bad("valid-request-fails", desc, X)
            if ctx.full: return
            continue
        if X.ndim != 2 or X.shape[1] != D:
            ctx.bad("shape", desc, X.shape); continue
        labels = [x + 1 for x in grp] if grp is not None else list(range(1, D + 1))
        lo = np.array([b[0] if not dists or dists[j] != "x" else 0 for j, b in enumerate(p["bounds"])])
        hi = np.array([b[1] for b in p["bounds"]])
        if (X < lo - 1e-9 * (hi - lo)).any() or (X > hi + 1e-9 * (hi - lo)).any():
            ctx.bad("outside-bounds", desc, "")
        cases.append(dict(groups=labels, p=lv, n=N, rows=levels(X, p, lv)))
        meta.append(desc)
        ctx.samples += len(X)
    # binding self-test
    base = copy.deepcopy(next(c for c in cases if c["n"] >= 2 and len(set(c["groups"])) > 2 and c["p"] >= 4))
    a = copy.deepcopy(base); a["rows"] = a["rows"][:-1]
    b = copy.deepcopy(base); b["rows"][1][0] = -1
    c = copy.deepcopy(base); c["rows"][2] = list(c["rows"][1])
    d = copy.deepcopy(base); d["rows"][1], d["rows"][2] = d["rows"][2], d["rows"][1]
    st = [(a, "row-count"), (b, "off-grid"), (c, "step"), (d, "step")]
    for c, m, v in zip(cases, meta, ctx.trace("MorrisTrace", cases, selftest=st)):
        ctx.count("designs")
        if not v["ok"]:
            ctx.bad(v["clause"], m, f"row {v['at']}")
            if ctx.full: return
    # reachability: every start point, both neighbours and every group order occur
    for D, grp, lv in [(2, None, 4), (2, None, 6), (1, None, 2), (1, None, 4), (3, None, 2), (4, [0, 1, 2, 3], 2)] + [(D, g, 4 if D == 2 else 2) for D in (2, 3, 4) for g in rgs(D)]:
        p = problem(D, grp, 0)
        g = grp or list(range(D)); G = len(set(g))
        N = 600 if lv ** D <= 64 else 1200
        X = ctx.call(morris.sample, copy.deepcopy(p), N, num_levels=lv, seed=7)
        if is_err(X): ctx.bad("valid-request-fails", dict(problem=p), X); continue
        R = np.array(levels(X, p, lv)).reshape(N, G + 1, D)
        starts = {tuple(t[0]) for t in R}
        orders = {tuple(g[int(np.nonzero(t[i + 1] != t[i])[0][0])] for i in range(G) if (t[i + 1] != t[i]).any()) for t in R}
        if len(starts) != lv ** D:
            ctx.bad("unreachable-start", dict(problem=p, levels=lv), f"{len(starts)} of {lv**D} grid points started from")
        if len(orders) != math.factorial(G):
            ctx.bad("unreachable-order", dict(problem=p, levels=lv), sorted(orders))
        ctx.count("reachability")
    # more groups than orders can be enumerated: every pair of groups occurs in every pair of positions
    for D, grp in [(5, None), (6, None), (8, [0, 1, 2, 3, 4, 5, 0, 3])] + ([(9, None)] if big else []):
        p = problem(D, grp, 0)
        g = np.array(grp if grp else range(D)); G = len(set(g.tolist())); lv = 4; N = 1500
        X = ctx.call(morris.sample, copy.deepcopy(p), N, num_levels=lv, seed=rnd.randint(0, 10**6))
        if is_err(X): ctx.bad("valid-request-fails", dict(problem=p), X); continue
        R = np.array(levels(X, p, lv)).reshape(N, G + 1, D)
        O = g[(np.diff(R, axis=1) != 0).argmax(axis=2)]
        desc = dict(problem=p, levels=lv, N=N)
        for a in range(G):
            for b in range(a + 1, G):
                if len({(int(x), int(y)) for x, y in O[:, [a, b]]}) != G * (G - 1):
                    ctx.bad("unreachable-order", dict(desc, positions=[a, b]), "some pair of groups never moves in these positions"); break
        dirs = np.sign(np.diff(R, axis=1).sum(axis=1))
        for j in range(D):
            for k in range(j + 1, D):
                if len({(int(x), int(y)) for x, y in dirs[:, [j, k]]}) != 4:
                    ctx.bad("unreachable-direction", dict(desc, parameters=[j, k]), "some combination of directions never occurs"); break
        ctx.count("reachability")
    # still more groups: neighbouring and distant positions (first moved element of every step, from the raw design)
    for G, N in [(12, 4000), (20, 10000)]:
        grp = [j % G for j in range(G + 3)] if rnd.random() < .5 else None
        D = len(grp) if grp else G
        p = problem(D, None, 0); sd = rnd.randint(0, 10**6)
        if grp: p["groups"] = ["g%d" % (99 - x) for x in grp]
        X = ctx.call(morris.sample, copy.deepcopy(p), N, num_levels=4, seed=sd)
        if is_err(X): ctx.bad("valid-request-fails", dict(problem=p), X); continue
        R = np.asarray(X).reshape(N, G + 1, D); g = np.array(grp if grp else range(D))
        O = g[(np.diff(R, axis=1) != 0).argmax(axis=2)]
        for a, b in [(0, 1), (0, G - 1), (G - 2, G - 1), (G // 2, G // 2 + 1), (1, G - 2)]:
            if len({(int(x), int(y)) for x, y in O[:, [a, b]]}) != G * (G - 1): ctx.bad("unreachable-order", dict(problem=p, N=N, seed=sd, positions=[a, b]), "some pair of groups never moves in these positions"); break
        ctx.count("reachability"); ctx.samples += N
