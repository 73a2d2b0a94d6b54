"""C05: optimised Morris designs are pool subsets of maximal spread (spec/MorrisOpt.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import morris
from morrislib import problem, levels, FINITE


def spread_seed(p, N, k, lv, late, tries=60):
    """A seed whose best subset (swap search, only used to choose inputs) lies late/early in the enumeration."""
    import math, random
    D = p["num_vars"]
    for s in range(100, 100 + tries):
        T = morris.sample(copy.deepcopy(p), N, num_levels=lv, seed=s).reshape(N, D + 1, D)
        d = np.sqrt(((T[:, None, :, None] - T[None, :, None, :]) ** 2).sum(-1)).sum((2, 3))
        M = d * d * ~(T[:, None] == T[None]).all((2, 3))
        best = (-1, None)
        for st in range(12):
            cur = random.Random(st).sample(range(N), k)
            while True:
                tot = lambda c: M[np.ix_(c, c)].sum()
                top = max((cur[:r] + [y] + cur[r + 1:] for r in range(k) for y in range(N) if y not in cur), key=tot)
                if tot(top) <= tot(cur) * (1 + 1e-9):
                    break
                cur = top
            best = max(best, (tot(cur), sorted(cur)), key=lambda t: t[0])
        left = math.comb(N, k) % 1000000
        if late == (math.comb(N - best[1][0], k) <= left):
            return s
    return 100


def run(ctx):
    big = ctx.thorough
    ctx.model("MCMorrisOpt", "SPECIFICATION Spec\nCONSTANTS\n NPool = 4\n K = 3\nINVARIANTS Faithful Symmetric Monotone LocalSound\nCHECK_DEADLOCK FALSE\n", cover=["Pick"])
    if big: ctx.model("MCMorrisOpt", "SPECIFICATION Spec\nCONSTANTS\n NPool = 5\n K = 3\nINVARIANTS Faithful Symmetric Monotone\nCHECK_DEADLOCK FALSE\n", cover=["Pick"])
    rnd = ctx.rnd
    todo = []
    for r in range(120 if big else 44):
        D = rnd.choice([1, 2, 2, 3, 3, 4, 5])
        grp = None if r % 3 else [rnd.randrange(rnd.randint(1, D)) for _ in range(D)]
        N = rnd.randint(3, 8); k = rnd.randint(2, min(N - 1, 5))
        todo.append((D, grp, rnd.choice([2, 4, 4, 6, 8]), N, k, bool(r % 2)))
    # pools with many identical trajectories
    for r in range(24 if big else 10):
        N = rnd.randint(4, 8)
        todo.append((rnd.choice([1, 2]), None, 2, N, rnd.randint(2, min(4, N - 1)), bool(r % 4)))
    for r in range(20 if big else 8):    # larger pools: membership and order only (local), or pairs
        D = rnd.randint(2, 8)
        todo.append((D, None if r % 2 else [rnd.randrange(3) for _ in range(D)], 4, rnd.randint(12, 40), rnd.choice([2, 6, 10, 11]), True))
    for r in range(40 if big else 14):   # the local search step by step: larger pools, few ties
        D = rnd.choice([2, 3, 3, 4]); N = rnd.choice([9, 12, 16] + [24] * big)
        todo.append((D, None if r % 3 else [0, 1, 0, 1][:D], rnd.choice([4, 6, 8]), N, rnd.choice([4, 5, 6, 7]), True))
    todo += [(2, None, 4, 14, 2, False), (2, None, 4, 12, 10, False), (3, [0, 0, 1], 4, 11, 9, False), (2, None, 4, 9, 8, True), (2, None, 4, 6, 5, False)]
    # hundreds and thousands of subsets; more subsets than the code scores in one go (a million)
    large = [(2, None, 8, 13, 4), (3, [0, 1, 0], 6, 14, 4), (1, None, 8, 12, 6), (2, None, 6, 13, 5)] + [(2, None, 6, 49, 5)] * (4 if big else 2)
    todo += [(*t, False) for t in large]
    cases, meta = [], []
    for i, (D, grp, lv, N, k, local) in enumerate(todo):
        p = problem(D, grp, i, [rnd.choice(list(FINITE)) for _ in range(D)] if i % 7 == 3 else None)
        seed = spread_seed(p, N, k, lv, bool(i % 2)) if N == 49 else i
        desc = dict(problem=p, N=N, k=k, levels=lv, local=local, seed=seed)
        mk = (lambda q: ProblemSpec(copy.deepcopy(q))) if i % 4 == 1 else copy.deepcopy
        A = ctx.call(morris.sample, mk(p), N, num_levels=lv, seed=seed)
        B = ctx.call(morris.sample, mk(p), N, num_levels=lv, optimal_trajectories=k, local_optimization=local, seed=seed)
        if is_err(A) or is_err(B):
            ctx.bad("valid-request-fails", desc, (A, B))
            if ctx.full: return
            continue
        G = len(set(grp)) if grp else D
        la, lb = levels(A, p, lv), levels(B, p, lv)
        if len(lb) % (G + 1) or len(la) != N * (G + 1):
            ctx.bad("row-count", desc, (A.shape, B.shape)); continue
        cut = lambda rows: [rows[t:t + G + 1] for t in range(0, len(rows), G + 1)]
        import math
        small = math.comb(N, k) <= 1300 and (k == 2 or N <= 14) and (G + 1) ** 2 * (lv - 1) * math.sqrt(D) < 32000 and (lv - 1) ** 2 * D < 2000
        best = "no"
        if local and k > 2 and N * N * (G + 1) ** 2 <= 8000 and len({str(t) for t in cut(la)}) > N - 3 and (G + 1) ** 2 * (lv - 1) * math.sqrt(D) < 32000 and (lv - 1) ** 2 * D < 2000:
            best = "pairs"
        elif small:
            best = "all" if not local or k == 2 else "pairs"
        elif not local and N > 20:
            best = "swaps"
        cases.append(dict(pool=cut(la), opt=cut(lb), k=k, best=best)); meta.append(desc)
        ctx.count(best); ctx.samples += len(B)
    base = copy.deepcopy(next(c for c in cases if c["best"] == "all" and c["k"] >= 3 and len({str(t) for t in c["pool"]}) == len(c["pool"]) > 4))
    a = copy.deepcopy(base); a["opt"] = a["opt"][::-1]
    b = copy.deepcopy(base); b["opt"] = b["opt"][:-1]
    st = [(a, "not-a-pool-subset-in-order"), (b, "count")]
    # a line of single points: the local search never returns neighbours
    c = dict(pool=[[[0], [2]], [[3], [1]], [[1], [3]], [[2], [0]], [[0], [2]]], opt=[[[0], [2]], [[1], [3]], [[0], [2]]], k=3, best="pairs")
    st.append((c, "not-a-local-search-result"))
    c = dict(pool=[[[0], [2]], [[3], [1]], [[1], [3]], [[0], [2]]], opt=[[[0], [2]], [[0], [2]]], k=2, best="all")
    st.append((c, "not-maximal"))
    for c, m, v in zip(cases, meta, ctx.trace("MorrisOptTrace", cases, selftest=st)):
        if not v["ok"]:
            ctx.bad(v["clause"], m, c["opt"] if len(str(c)) < 3000 else "")
            if ctx.full: return
    # request domain
    for D, grp in ((3, None), (3, [0, 1, 0])):
        p = problem(D, grp, 0)
        for N, k, local, ok in ((6, 1, True, False), (6, 1, False, False), (6, 6, True, False), (6, 6, False, False), (6, 7, True, False),
                                (6, 7, False, False), (6, -2, True, False), (6, -2, False, False), (6, 2, True, True), (6, 2, False, True), (6, 5, True, True), (6, 5, False, True),
                                (14, 11, False, False), (14, 11, True, True), (6, 2.5, True, False), (6, 2.5, False, False)):
            X = ctx.call(morris.sample, copy.deepcopy(p), N, optimal_trajectories=k, local_optimization=local, seed=1)
            ctx.count("domain")
            if is_err(X) == ok:
                ctx.bad("domain", dict(N=N, k=k, local=local, groups=grp), X)
