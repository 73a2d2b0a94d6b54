"""C11: fractional factorial designs and effects (spec/FracFact.tla)."""
import copy, itertools
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import ff as sff
from SALib.analyze import ff as aff
import distlib


def levels(X, p, D):
    ds = list(p.get("dists") or ["unif"] * D)
    L = []
    ends = [(distlib.Q(d, b, 0), distlib.Q(d, b, 1)) for d, b in zip(ds[:D], p["bounds"][:D])] + [(0.0, 1.0)] * (X.shape[1] - D)
    for row in X:
        L.append([1 if abs(x - hi) <= 1e-9 * max(1, abs(hi - lo), abs(hi)) * (1 if hi - lo > 1e-6 else 1e-3) else 0 if abs(x - lo) <= 1e-9 * max(1, abs(hi - lo), abs(lo)) * (1 if hi - lo > 1e-6 else 1e-3) else 9 for x, (lo, hi) in zip(row, ends)])
    return L


def run(ctx):
    ctx.neighbours(sff, aff)
    big = ctx.thorough
    ctx.model("MCFracFact", f"SPECIFICATION Spec\nCONSTANTS\n DMAX = {20 if big else 12}\nINVARIANTS Smallest Legal Exact\nCHECK_DEADLOCK FALSE\n", cover=["Base", "Fold", "Effect"])
    rnd = ctx.rnd
    Ds = list(range(1, 18)) + [31, 32, 33] + ([48, 63, 64, 65] if big else [])
    Ds += [rnd.randint(2, 12) for _ in range(20 if big else 8)]
    cases, meta = [], []
    for i, D in enumerate(Ds):
        g = None if i % 3 else [rnd.randrange(D) for _ in range(D)]
        p = distlib.problem(rnd, D, g, [rnd.choice(["unif", "triang", "logunif", "truncnorm"]) for _ in range(D)] if i % 4 == 2 else None)
        orig = copy.deepcopy(p)
        desc = dict(problem=orig)
        q = ProblemSpec(copy.deepcopy(p)) if i % 5 == 3 else p
        X = ctx.call(sff.sample, q, seed=i) if i % 2 else ctx.call(sff.sample, q)
        if is_err(X):
            ctx.bad("valid-request-fails", desc, X)
            if ctx.full: return
            continue
        K = X.shape[1]
        L = levels(X, orig, D)
        y = [rnd.randint(-9, 9) for _ in range(2 * K)] if K <= 32 else []
        if i % 4 == 0 and y:      # structured outputs: few terms
            j, k = rnd.randrange(D), rnd.randrange(D)
            y = [3 * (2 * r[j] - 1) + 2 * (2 * r[j] - 1) * (2 * r[k] - 1) + 7 for r in L]
        # the problem given is padded with dummies after the user's parameters
        if list(q["names"][:D]) != orig["names"] or q["num_vars"] != K or len(q["names"]) != K or len(set(map(str, q["names"]))) != K or not all(str(n).startswith("dummy") for n in q["names"][D:]) \
           or [list(b) for b in q["bounds"][:D]] != [list(b) for b in orig["bounds"]] or [list(b) for b in q["bounds"][D:]] != [[0, 1]] * (K - D):
            ctx.bad("padding", desc, dict(q)); continue
        # groups and distributions are padded alike, and a padded problem gives the same design again
        for key, dummy in (("groups", lambda v: len(set(v)) == len(v) and not set(v) & set(orig.get("groups") or orig["names"])), ("dists", lambda v: all(d == "unif" for d in v))):
            o, n = orig.get(key), q.get(key)
            if key == "groups" and not o and isinstance(q, ProblemSpec): o = orig["names"] if n else o      # filled in by ProblemSpec
            if (o is None) != (n is None) or (o is not None and (len(n) != K or list(n[:D]) != list(o) or not dummy(list(n[D:])))):
                ctx.bad("padding", dict(desc, entry=key), n); break
        X2 = ctx.call(sff.sample, copy.deepcopy(dict(q)))
        ctx.count("resampled")
        if is_err(X2) or X2.shape != X.shape or not np.allclose(X2, X, rtol=1e-12, atol=0): ctx.bad("padded-problem-differs", desc, X2)
        cases.append(dict(D=D, rows=L, y=y)); meta.append((orig, q, X, y))
        ctx.samples += len(X)
    b = next(c for c in cases if c["D"] == 3)
    st = []
    for cl, f in (("shape", lambda c: c["rows"].pop()), ("not-a-bound", lambda c: c["rows"][0].__setitem__(0, 9)), ("unbalanced", lambda c: c["rows"][0].__setitem__(1, 1 - c["rows"][0][1])),
                  ("not-orthogonal", lambda c: [r.__setitem__(1, r[2]) for r in c["rows"]]), ("no-fold-over", lambda c: c["rows"].__setitem__(slice(4, 6), c["rows"][4:6][::-1]))):
        x = copy.deepcopy(b); f(x); st.append((x, cl))
    for i, (c, (orig, q, X, y), v) in enumerate(zip(cases, meta, ctx.trace("FracFactTrace", cases, selftest=st))):
        D, K = c["D"], X.shape[1]
        desc = dict(problem=orig, y=y)
        ctx.count("designs")
        if not v["ok"]:
            ctx.bad(v["clause"], desc)
            if ctx.full: return
            continue
        if not y: continue
        ysc = 1
        Y = np.array(y, float if i % 2 else int)
        if i % 3 == 1: ysc = rnd.choice([.25, -.5, 1024.0, 1e-6]); Y = Y * ysc + rnd.choice([-1, 1]) * 1e5 * abs(ysc)      # far from zero, in other units
        so = bool(i % 3)
        prob = q if i % 2 else copy.deepcopy(orig)     # padded already, or not
        Si = ctx.call(aff.analyze, prob, X, Y, second_order=so, seed=(i if i % 4 else None))
        if is_err(Si):
            ctx.bad("valid-request-fails", desc, Si)
            if ctx.full: return
            continue
        ctx.count("effects")
        names = list(q["names"])
        if list(Si["names"]) != names or len(Si["ME"]) != K:
            ctx.bad("ME-entries", desc, (Si["names"], len(Si["ME"]))); continue
        for j in range(K):
            if not close(Si["ME"][j], ysc * rat(v["me"][j]), 1e-9, 1e-9 if ysc == 1 else 1e-7 * abs(ysc)):
                ctx.bad("ME", dict(desc, parameter=j, scale=ysc), f"expected {ysc * rat(v['me'][j])}, got {Si['ME'][j]}"); break
        if ("IE" in Si) != so or ("interaction_names" in Si) != so:
            ctx.bad("second-order-option", desc, list(Si)); continue
        if so:
            want = {frozenset((names[a], names[b])): rat(v["ie"][a][b]) for a in range(K) for b in range(a + 1, K)}
            got = [frozenset(n) for n in Si["interaction_names"]]
            if len(got) != len(Si["IE"]) or len(got) != len(want) or set(got) != set(want):
                ctx.bad("IE-pairs", desc, Si["interaction_names"]); continue
            for n, val in zip(got, Si["IE"]):
                if not close(val, ysc * want[n], 1e-9, 1e-9 if ysc == 1 else 1e-7 * abs(ysc)):
                    ctx.bad("IE", dict(desc, pair=sorted(n)), f"expected {want[n]}, got {val}"); break
            if any(tuple(n) != (names[a], names[b]) for n in Si["interaction_names"] for a, b in [sorted((names.index(n[0]), names.index(n[1])))]):
                ctx.bad("IE-pair-order", desc, Si["interaction_names"])
        if ctx.full: return
    # lists shared with another problem stay untouched
    nm, bn, gr, ds = ["a", "b", "c"], [[0, 1]] * 3, ["u", "v", "u"], ["unif"] * 3
    keep = copy.deepcopy((nm, bn, gr, ds))
    X = ctx.call(sff.sample, dict(num_vars=3, names=nm, bounds=bn, groups=gr, dists=ds))
    if is_err(X) or (nm, bn, gr, ds) != keep: ctx.bad("shared-lists", dict(names=nm, bounds=bn, groups=gr, dists=ds), X)
    for D in [40, 48, 63, 64, 65, rnd.randint(66, 126), 127, 128, 129]:     # effects against the levels, numerically
        p = dict(num_vars=D, names=[f"x{(j * 7) % 200 if D < 200 else j}" for j in range(D)], bounds=[[rnd.choice([-1, 0, 5]), rnd.choice([6, 100])] for _ in range(D)])
        q = copy.deepcopy(p); X = ctx.call(sff.sample, q); desc = dict(D=D)
        ctx.count("large")
        if is_err(X): ctx.bad("valid-request-fails", desc, X); continue
        K = X.shape[1]; b = np.array(p["bounds"] + [[0, 1]] * (K - D), float)
        T = (X - b[:, 0]) / (b[:, 1] - b[:, 0]) * 2 - 1
        if X.shape != (2 * K, K) or K != 2 ** math.ceil(math.log2(D)) or not np.allclose(np.abs(T), 1, atol=1e-12) or not np.allclose(T.T @ T, 2 * K * np.eye(K)) or not np.allclose(T[:K], -T[K:]):
            ctx.bad("large-D", desc, X.shape); continue
        Y = np.array([rnd.randint(-9, 9) for _ in range(2 * K)], float); T = np.round(T)
        Si = ctx.call(aff.analyze, copy.deepcopy(p) if D % 2 else q, X, Y, second_order=D < 70)
        if is_err(Si) or len(Si["ME"]) != K or list(Si["names"])[:D] != p["names"]: ctx.bad("valid-request-fails", desc, Si); continue
        if not np.allclose(Si["ME"], Y @ T / (2 * K), rtol=1e-9, atol=1e-9): ctx.bad("ME", desc, np.argmax(np.abs(Si["ME"] - Y @ T / (2 * K))))
        if D < 70:
            ix = {n: j for j, n in enumerate(Si["names"])}; PW = T.T @ (T * Y[:, None]) / (2 * K)
            prs = {frozenset((ix[a], ix[b])) for a, b in Si["interaction_names"]}
            if len(prs) != K * (K - 1) // 2 or len(Si["IE"]) != len(prs): ctx.bad("IE-pairs", desc, len(prs)); continue
            for (a, b), v in zip(Si["interaction_names"], Si["IE"]):
                if not close(v, PW[ix[a], ix[b]]) or ix[a] >= ix[b]: ctx.bad("IE", dict(desc, pair=[a, b]), f"expected {PW[ix[a], ix[b]]}, got {v}"); break
    for D in (513,) if not big else (513, 1025):
        X = ctx.call(sff.sample, dict(num_vars=D, names=[f"x{j}" for j in range(D)], bounds=[[-1, 1]] * D))
        ctx.count("large")
        if is_err(X): ctx.bad("large-D", dict(D=D), X); continue
        K = X.shape[1]; X[:, D:] = X[:, D:] * 2 - 1
        if X.shape != (2 * K, K) or K != 2 ** math.ceil(math.log2(D)) or not np.array_equal(X.T @ X, 2 * K * np.eye(K)) or not np.array_equal(X[:K], -X[K:]): ctx.bad("large-D", dict(D=D), X.shape)
    for D in (3, 4):     # wrong output length
        p = dict(num_vars=D, names=[f"x{j}" for j in range(D)], bounds=[[0, 1]] * D)
        X = sff.sample(copy.deepcopy(p))
        for n in (7, 9, 4):
            ctx.count("domain")
            Si = ctx.call(aff.analyze, copy.deepcopy(p), X, np.ones(n))
            if not is_err(Si): ctx.bad("length-domain", dict(D=D, n=n), Si)
