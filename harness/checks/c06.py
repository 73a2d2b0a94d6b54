"""C06: Morris measures (spec/MorrisEE.tla)."""
import copy, math
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import morris as smorris
from SALib.analyze import morris
from morrislib import problem, levels, grid


def walk(rnd, D, grp, lv, N):
    """rows of levels generated from MorrisTraj's actions"""
    rows = []
    ks = sorted(set(grp))
    sh = lambda c: c + lv // 2 if c < lv // 2 else c - lv // 2
    for _ in range(N):
        pt = [rnd.randrange(lv) for _ in range(D)]
        rows.append(pt)
        for k in rnd.sample(ks, len(ks)):
            pt = [sh(c) if grp[j] == k else c for j, c in enumerate(pt)]
            rows.append(pt)
    return rows


def run(ctx):
    ctx.neighbours(smorris, morris)
    big = ctx.thorough
    ctx.model("MCMorrisEE", f"SPECIFICATION Spec\nCONSTANTS\n Coefs = {{0, 2, 3{', 5, 7' if big else ''}}}\nINVARIANTS Additive OnePer StarBound SameSize\nCHECK_DEADLOCK FALSE\n", cover=["Step", "Done"])
    rnd = ctx.rnd
    cases, meta = [], []
    todo = []
    for D in range(1, 5):
        for grp in [None] + rgs(D):
            todo.append((D, grp, rnd.choice([2, 4, 6, 8]), rnd.randint(1, 4)))
    for r in range(80 if big else 25):
        D = rnd.randint(2, 12)
        grp = None if r % 3 == 0 else [rnd.randrange(rnd.randint(2, 5)) for _ in range(D)]
        todo.append((D, grp, rnd.choice([2, 4, 6, 10]), rnd.randint(2, 8)))
    for r in range(20 if big else 8):
        todo.append((rnd.randint(2, 4), None, 4, rnd.randint(10, 30)))
    for i, (D, grp, lv, N) in enumerate(todo):
        g = grp or list(range(D))
        p = problem(D, grp, i)
        if i % 3 == 0:
            X = ctx.call(smorris.sample, copy.deepcopy(p), N, num_levels=lv, seed=i)
            if is_err(X):
                ctx.bad("sampler-fails", dict(problem=p, N=N), X); continue
            rows = levels(X, p, lv)
            if len(rows) != N * (len(set(g)) + 1) or any(-1 in r for r in rows):
                ctx.bad("sampler-design", dict(problem=p, N=N, levels=lv), "not a grid design"); continue
        else:
            rows = walk(rnd, D, g, lv, N)
            gr = grid(p, lv)
            X = np.array([[gr[j][c] for j, c in enumerate(r)] for r in rows])
        amp = 20 if len(rows) < 60 else 5
        kind = i % 6
        if kind == 4:
            y = [3 * r[0] - (r[-1] if D > 1 else 0) for r in rows]
        elif kind == 5:
            y = [0] * len(rows)
            for t in range(len(rows)): y[t] = rnd.choice([0, 0, 0, 1])
        else:
            y = [rnd.randint(-amp, amp) for _ in rows]
        cases.append(dict(groups=[x + 1 for x in g], p=lv, rows=rows, y=y))
        meta.append((p, X, lv, N, i))
    exp = ctx.oracle("MorrisEEOracle", cases)
    for c, (p, X, lv, N, i), e in zip(cases, meta, exp):
        G = e["g"]; canon = e["canon"]
        Y = np.array(c["y"], float)
        Xr = X.astype(np.float32) if i % 9 == 8 and not p.get("dists") and i % 3 else X
        if i % 5 == 2:
            Y = np.ascontiguousarray(np.c_[Y, Y * 0 + 7])[:, 0]
        if i % 9 == 7:
            Y = Y.astype(np.float32)
        desc = dict(problem=p, levels=lv, rows=c["rows"], y=c["y"])
        pp = lambda: ProblemSpec(copy.deepcopy(p)) if i % 4 == 1 else copy.deepcopy(p)
        want_names = []
        lab = p.get("groups") or p["names"]
        for n in lab:
            if n not in want_names:
                want_names.append(n)
        for scaled in (False, True):
            kw = dict(num_resamples=rnd.choice([2, 10]), seed=i)
            if lv != 4 or i % 2: kw["num_levels"] = lv
            if scaled or i % 2: kw["scaled"] = scaled
            S = ctx.call(morris.analyze, pp(), Xr, Y, **kw)
            ctx.samples += 1
            if is_err(S):
                ctx.bad("valid-request-fails", dict(desc, kw=kw), S); break
            if not scaled:
                mu = [rat(v) for v in e["mu"]]; ms = [rat(v) for v in e["mu_star"]]
                sg = [math.sqrt(rat(v)) if v[1] else math.nan for v in e["sigma2"]]
            else:
                sq = np.array([[rat(v) for v in r] for r in e["scaled"]])
                ev = np.sign(sq) * np.sqrt(np.abs(sq))
                M = [[j for j in range(len(canon)) if canon[j] == k + 1] for k in range(G)]
                mu = [ev[m].mean(axis=1).mean() for m in M]
                ms = [np.abs(ev[m]).mean(axis=1).mean() for m in M]
                sg = [ev[m[0]].std(ddof=1) if len(m) == 1 and ev.shape[1] > 1 else math.nan for m in M]
            if [str(n) for n in S["names"]] != [str(n) for n in want_names]:
                ctx.bad("names", dict(desc, kw=kw), list(S["names"])); break
            ok = True
            for key, w in (("mu", mu), ("mu_star", ms), ("sigma", sg)):
                v = np.ma.filled(np.ma.asarray(S[key]).astype(float), np.nan)
                if v.shape != (G,) or np.asarray(S["mu_star_conf"]).shape != (G,):
                    ctx.bad(key + "-shape", dict(desc, kw=kw), v.shape); ok = False; break
                tol = 1e-4 if Xr.dtype == np.float32 or Y.dtype == np.float32 else 1e-8
                bad = [k for k in range(G) if not close(v[k], w[k], tol, tol)]
                if bad:
                    ctx.bad(key + ("-scaled" if scaled else ""), dict(desc, kw=kw), f"entry {bad[0]}: got {v[bad[0]]}, specified {w[bad[0]]}"); ok = False; break
            if not ok: break
        ctx.count("analyses"); ctx.traces += 1
        if ctx.full: return
