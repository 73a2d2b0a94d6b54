"""C07: Latin hypercube designs (spec/Latin.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import latin
import distlib


def classes(cols, tol):
    """identity classes of numeric columns"""
    reps, out = [], []
    for c in cols:
        for k, r in enumerate(reps):
            if np.all(np.abs(r - c) <= tol):
                out.append(k); break
        else:
            out.append(len(reps)); reps.append(c)
    return out


def strata(col, n):
    s = np.floor(col * n)
    # a value within rounding distance of a stratum edge may be on either side: prefer the free one
    near = np.abs(col * n - np.round(col * n)) < 1e-7
    if near.any():
        used = set(s[~near].astype(int))
        for i in np.where(near)[0]:
            r = int(round(col[i] * n))
            opts = [k for k in (r - 1, r) if 0 <= k < n]
            k = next((k for k in opts if k not in used), opts[0] if opts else -1)
            used.add(k); s[i] = k
    return s.astype(int).tolist()


def canon(grp):
    seen = []
    for g in grp:
        if g not in seen: seen.append(g)
    return [seen.index(g) + 1 for g in grp]


def run(ctx):
    ctx.neighbours(latin)
    big = ctx.thorough
    n = 4 if big else 3
    ctx.model("MCLatin", f"SPECIFICATION Spec\nCONSTANTS\n N = {n}\nINVARIANTS Stratified Mid\nCHECK_DEADLOCK FALSE\n", cover=["Swap", "Hand"])
    rnd = ctx.rnd
    todo = []
    for D in (1, 2, 3, 4):
        for k, g in enumerate(rgs(D)):
            todo.append((D, g if (k + D) % 5 else None))
    for _ in range(160 if big else 50):
        D = rnd.randint(1, 12) if _ % 10 else rnd.randint(13, 40)
        todo.append((D, None if rnd.random() < .4 else [rnd.randrange(rnd.randint(1, D)) for _ in range(D)]))
    cases, meta = [], []
    for i, (D, g) in enumerate(todo):
        if g is not None and i % 2:
            m = list(range(40)); rnd.shuffle(m); g = [m[x] for x in g]
        p = distlib.problem(rnd, D, g, None if i % 3 == 0 else "mix")
        N = rnd.choice([1, 2, 3, 5, 8, 10, 17, 30, 50, 100]) if i % 9 or D > 12 else rnd.choice([400, 1100])
        seed = rnd.choice([0, 1, i, 12345, 2 ** 31 - 1, None]) if i % 4 else np.random.default_rng(i)
        desc = dict(problem=p, N=N, seed=seed if isinstance(seed, (int, type(None))) else f"default_rng({i})")
        q = ProblemSpec(copy.deepcopy(p)) if i % 5 == 2 else copy.deepcopy(p)
        X = ctx.call(latin.sample, q, N, seed=seed)
        if is_err(X) or not isinstance(X, np.ndarray) or X.shape != (N, D):
            ctx.bad("valid-request-fails", desc, X if is_err(X) else getattr(X, "shape", type(X)))
            if ctx.full: return
            continue
        if not np.all(np.isfinite(X)):
            ctx.bad("non-finite", desc); continue
        U = np.array(distlib.unit(p, X))
        st = [strata(U[:, j], N) for j in range(D)]
        gg = canon(g) if g is not None else list(range(1, D + 1))
        off = U * N - np.floor(U * N)
        tol = 1e-7
        ids = classes([U[:, j] for j in range(D)], tol)
        offs = classes([off[:, j] for j in range(D)], 1e-9) if N >= 2 else ids
        cases.append(dict(kind="design", grp=gg, n=N, st=st, id=ids, off=offs)); meta.append(desc)
        ctx.samples += N
    # relative orders: all reachable, jointly over groups
    for D, g in ((2, None), (3, None), (3, [0, 1, 0]), (4, [1, 0, 0, 2]), (3, [0, 0, 0])):
        p = distlib.problem(rnd, D, g, None)
        orders = []
        for s in range(300):
            X = ctx.call(latin.sample, copy.deepcopy(p), 3, seed=s + 1000 * ctx.seed)
            if is_err(X):
                ctx.bad("valid-request-fails", dict(problem=p, N=3, seed=s), X); return
            orders.append(np.array([strata(np.array(c), 3) for c in zip(*distlib.unit(p, X))]).tolist())
        cases.append(dict(kind="cover", grp=canon(g) if g is not None else list(range(1, D + 1)), n=3, orders=orders)); meta.append(dict(problem=p, N=3, what="300 seeds"))
    for D, g, n in ((7, None, 3), (9, [2, 0, 1, 3, 2, 4, 0, 5, 6], 3), (14, None, 2), (26, None, 2), (30, [j // 2 * 7 % 15 for j in range(30)], 3)):
        p = distlib.problem(rnd, D, g, None); orders = []
        for s in range(150):
            X = ctx.call(latin.sample, copy.deepcopy(p), n, seed=s + 777 * ctx.seed)
            if is_err(X): ctx.bad("valid-request-fails", dict(problem=p, N=n, seed=s), X); return
            orders.append([strata(np.array(c), n) for c in zip(*distlib.unit(p, X))])
        cases.insert(0, dict(kind="cover", grp=canon(g) if g is not None else list(range(1, D + 1)), n=n, orders=orders)); meta.insert(0, dict(problem=p, N=n, what="150 seeds"))
    for D, g, n in ((2, None, 40), (6, None, 100), (5, [0, 1, 1, 2, 3], 64), (12, None, 20), (3, [1, 0, 1], 200)):
        p = distlib.problem(rnd, D, g, None); runs = []; R = 60 if big else 24
        for s in range(R):
            X = ctx.call(latin.sample, copy.deepcopy(p), n, seed=s + 555 * ctx.seed)
            if is_err(X): ctx.bad("valid-request-fails", dict(problem=p, N=n, seed=s), X); return
            runs.append([[i + 1 for i, v in enumerate(strata(np.array(c), n)) if v < n // 2] for c in zip(*distlib.unit(p, X))])
        # each meeting count is hypergeometric with standard deviation sqrt(n^2 / 16 / (n - 1)); six of them over the runs
        cases.insert(0, dict(kind="halves", grp=canon(g) if g is not None else list(range(1, D + 1)), n=n, runs=runs, slack=int(6 * n / 4 / (n - 1) ** .5 * R ** .5) + 1))
        meta.insert(0, dict(problem=p, N=n, what=f"{R} seeds"))
    dd = next(c for c in cases if c["kind"] == "design" and len(set(c["grp"])) >= 2 and len(set(c["grp"])) < len(c["grp"]) and c["n"] >= 5)
    st = []
    a = copy.deepcopy(dd); a["st"][0][0] = a["st"][0][1]; st.append((a, "stratified"))
    a = copy.deepcopy(dd); a["id"] = list(range(len(a["id"]))); st.append((a, "members-differ"))
    a = copy.deepcopy(dd); a["id"] = [0] * len(a["id"]); st.append((a, "groups-share-draws"))
    a = copy.deepcopy(cases[-5]); a["orders"] = [[o[0], o[0]] for o in a["orders"]]; st.append((a, "groups-not-independent"))
    for c, m, v in zip(cases, meta, ctx.trace("LatinTrace", cases, selftest=st)):
        ctx.count(c["kind"])
        if not v["ok"]:
            ctx.bad(v["clause"], m)
            if ctx.full: return
