"""C03: bootstrap confidence values (spec/Bootstrap.tla, spec/SobolOracle.tla picks)."""
import itertools
from statistics import NormalDist
from vlib import *
import numpy as np
from SALib.analyze import sobol, fast, rbd_fast, delta, dgsm, morris
from SALib.sample.morris import sample as morris_sample
from SALib.sample import sobol as s_sobol

Z = lambda c: NormalDist().inv_cdf(0.5 + c / 2)


def prob(D, groups=None):
    p = {"num_vars": D, "names": [f"p{j}" for j in range(D)], "bounds": [[0, 1]] * D}
    if groups:
        p["groups"] = groups
    return p


def member(vals, sets, tol=1e-9):
    """vals (R,k) each row within tol of a row of sets (m,k)? returns index of first miss or None, and hits"""
    d = np.abs(vals[:, None, :] - sets[None, :, :]) / (1 + np.abs(sets[None]))
    ok = (d < tol).all(2)
    miss = np.where(~ok.any(1))[0]
    return (int(miss[0]) if len(miss) else None), set(np.where(ok.any(0))[0].tolist())


def sobol_part(ctx):
    rnd = ctx.rnd
    cases, meta = [], []
    shapes = [(None, 2, 2), (None, 2, 3), (None, 3, 2), (None, 1, 3), ([0, 1, 0], 3, 3), ([0, 1, 1, 0], 4, 2), (None, 4, 2), ([0, 0], 2, 3)]
    for r in range(len(shapes) * (6 if ctx.thorough else 2)):
        grp, D, N = shapes[r % len(shapes)]
        g = grp or list(range(D))
        if len(set(g)) == 1:
            g = list(range(D))
        so = bool((r // len(shapes) + r) % 2)
        G = len(set(g)); L = 2 * G + 2 if so else G + 2
        y = []
        for b in range(N):
            blk = [rnd.randint(0, 4) for _ in range(L)]
            blk[-1] = blk[0] + rnd.choice([1, 2, 3])
            y += blk
        picks = [[i + 1 for i in t] for t in itertools.product(range(N), repeat=N)]
        c = dict(groups=[x + 1 for x in g], so=so, y=y, picks=picks)
        if so:
            c["s2"] = True
        cases.append(c)
        meta.append((prob(D, [f"g{x}" for x in grp] if grp else None), so, N, G))
    exp = ctx.oracle("SobolOracle", cases)
    for c, (p, so, N, G), e in zip(cases, meta, exp):
        y = np.array(c["y"], float)
        s1 = np.array([[rat(v) for v in r["s1"]] for r in e["res"]])
        st = np.array([[rat(v) for v in r["st"]] for r in e["res"]])
        both = np.hstack([s1, st])
        kinds = np.unique(np.round(both, 9), axis=0)
        for cl in (0.95, rnd.choice([0.5, 0.8, 0.99])):
            R = 300
            desc = dict(problem=p, y=c["y"], so=so, R=R, conf_level=cl)
            S = ctx.call(sobol.analyze, p, y, calc_second_order=so, num_resamples=R, conf_level=cl, keep_resamples=True, seed=rnd.randint(0, 10**6))
            ctx.samples += 1
            if is_err(S):
                ctx.bad("valid-request-fails", desc, S); continue
            a1, at = np.asarray(S["S1_conf_all"]), np.asarray(S["ST_conf_all"])
            if a1.shape != (R, G) or at.shape != (R, G):
                ctx.bad("resample-shape", desc, (a1.shape, at.shape)); continue
            miss, hits = member(np.hstack([a1, at]), both)
            if miss is not None:
                ctx.bad("resample-not-a-multiset-of-blocks", desc, f"replicate {miss}: S1 {a1[miss]} ST {at[miss]}"); continue
            seen = np.unique(np.round(both[sorted(hits)], 9), axis=0)
            if len(seen) != len(kinds) and N <= 3:
                ctx.bad("resample-unreachable", desc, f"only {len(seen)} of {len(kinds)} distinct replicates drawn in {R}"); continue
            for key, al in (("S1_conf", a1), ("ST_conf", at)):
                w = Z(cl) * al.std(axis=0, ddof=1)
                v = np.asarray(S[key])
                if v.shape != (G,) or not all(close(v[k], w[k]) for k in range(G)):
                    ctx.bad(key + "-not-quantile-times-spread", desc, f"{v} vs {w}")
            # stratum probability: the exact bootstrap standard deviation
            for key, ex in (("S1_conf", s1), ("ST_conf", st)):
                pop = ex.std(axis=0)
                for k in range(G):
                    kurt = ((ex[:, k] - ex[:, k].mean()) ** 4).mean() / max(pop[k] ** 4, 1e-300)
                    tol = 6 * np.sqrt(max(kurt, 1) / R) * 0.5 + 1e-9
                    if pop[k] > 1e-12 and abs(S[key][k] / Z(cl) / pop[k] - 1) > tol:
                        ctx.bad(key + "-distribution", desc, f"index {k}: {S[key][k]/Z(cl)} vs exact {pop[k]} (tol {tol:.2f})")
                    if pop[k] < 1e-13 and abs(S[key][k]) > 1e-9:
                        ctx.bad(key + "-distribution", desc, f"index {k}: {S[key][k]} vs 0")
            ctx.count("sobol"); ctx.traces += 1
        if so and G > 1:     # two replicates: |difference| / sqrt 2 must come from two exact replicates
            s2 = np.array([[[rat(v) for v in row] for row in r["s2"]] for r in e["res"]])
            S = ctx.call(sobol.analyze, p, y, calc_second_order=True, num_resamples=2, conf_level=0.9, seed=rnd.randint(0, 10**6))
            if is_err(S):
                ctx.bad("valid-request-fails", desc, S); continue
            for j in range(G):
                for k in range(j + 1, G):
                    v = s2[:, j, k]
                    d = np.abs(v[:, None] - v[None, :]) / np.sqrt(2) * Z(0.9)
                    if not (np.abs(d - S["S2_conf"][j, k]) < 1e-8 * (1 + d)).any():
                        ctx.bad("S2_conf-not-from-replicates", dict(problem=p, y=c["y"]), f"{j},{k}: {S['S2_conf'][j,k]}")
            R = 1500
            S = ctx.call(sobol.analyze, p, y, calc_second_order=True, num_resamples=R, conf_level=0.9, seed=rnd.randint(0, 10**6))
            for j in range(G):
                for k in range(j + 1, G):
                    ex = s2[:, j, k]; pop = ex.std()
                    if pop > 1e-12:
                        kurt = ((ex - ex.mean()) ** 4).mean() / pop ** 4
                        tol = 3.5 * np.sqrt(max(kurt, 1) / R)
                        if abs(S["S2_conf"][j, k] / Z(0.9) / pop - 1) > tol:
                            ctx.bad("S2_conf-distribution", dict(problem=p, y=c["y"]), f"{j},{k}")
        if ctx.full:
            return
    # identical blocks
    for so in (True, False):
        for D in (2, 3):
            L = 2 * D + 2 if so else D + 2
            b = [float(rnd.randint(0, 9)) for _ in range(L)]; b[-1] = b[0] + 1
            S = ctx.call(sobol.analyze, prob(D), np.array(b * 5), calc_second_order=so, num_resamples=20, seed=3)
            for k in ("S1_conf", "ST_conf") + (("S2_conf",) if so else ()):
                v = np.asarray(S[k]); v = v[~np.isnan(v)] if k == "S2_conf" else v
                if not (np.abs(v) < 1e-9).all():
                    ctx.bad("identical-units", dict(D=D, so=so, block=b), f"{k}={v}")
            ctx.count("identical")


def mean_part(ctx):
    """Morris and DGSM: unit values are chosen integers, so replicate means are exact."""
    rnd = ctx.rnd
    cases, meta = [], []
    for r in range(24 if ctx.thorough else 10):
        D, N = rnd.choice([(2, 3), (3, 4), (2, 5), (1, 3), (3, 2)])
        u = [[rnd.randint(0, 6) for _ in range(N)] for _ in range(D)]
        kind = "morris" if r % 2 else "dgsm"
        cases += [dict(units=[v if kind == "morris" else v * v for v in u[d]]) for d in range(D)]
        meta.append((kind, D, N, u))
    exp = iter(ctx.oracle("BootOracle", cases))
    for r, (kind, D, N, u) in enumerate(meta):
        ex = [next(exp) for _ in range(D)]
        p = prob(D)
        if kind == "dgsm":       # quotient of parameter d in block i is +-u[d][i], steps differ
            X, Y = [], []
            for i in range(N):
                x = [0.25 * rnd.randint(0, 2) for _ in range(D)]
                X.append(x); Y.append(float(i % 3))
                for d in range(D):
                    h = rnd.choice([0.25, 0.5, 0.125, -0.25]) if r % 4 == 0 else 0.25
                    x2 = list(x); x2[d] += h
                    X.append(x2); Y.append(Y[-1 - d] + rnd.choice([-1, 1]) * u[d][i] * h)
            X, Y = np.array(X), np.array(Y)
            run_ = lambda **k: dgsm.analyze(p, X, Y, **k)
            key = "dgsm_conf"
        else:                    # elementary effect of d in trajectory i is +-u[d][i] (4 levels, delta = 2/3)
            X, Y = [], []
            for i in range(N):
                x = [0.0] * D; y = 5.0
                X.append(list(x)); Y.append(y)
                for d in rnd.sample(range(D), D):
                    x[d] += 2 / 3
                    y += rnd.choice([-1, 1]) * u[d][i] * 2 / 3
                    X.append(list(x)); Y.append(y)
            X, Y = np.array(X), np.array(Y)
            run_ = lambda **k: morris.analyze(p, X, Y, num_levels=4, **k)
            key = "mu_star_conf"
        desc = dict(method=kind, units=u)
        for t in range(6):
            S = ctx.call(run_, num_resamples=2, conf_level=0.8, seed=rnd.randint(0, 10**6))
            ctx.samples += 1
            if is_err(S):
                ctx.bad("valid-request-fails", desc, S); break
            v = np.asarray(S[key], float)
            if v.shape != (D,):
                ctx.bad("conf-shape", desc, v.shape); break
            for d in range(D):
                s = np.array(ex[d]["sums"]) / N
                dd = np.abs(s[:, None] - s[None, :]) / np.sqrt(2) * Z(0.8)
                if not (np.abs(dd - v[d]) < 1e-8 * (1 + dd)).any():
                    ctx.bad("conf-not-from-replicates", desc, f"{key}[{d}]={v[d]}")
        R = 4000
        S = ctx.call(run_, num_resamples=R, conf_level=0.95, seed=rnd.randint(0, 10**6))
        if is_err(S):
            ctx.bad("valid-request-fails", desc, S); continue
        for d in range(D):
            w = Z(0.95) * np.sqrt(ex[d]["varnum"] / N ** 2 / N)
            if abs(S[key][d] - w) > 0.1 * w + 1e-9:
                ctx.bad("conf-distribution", desc, f"{key}[{d}]={S[key][d]} expected about {w}")
        ctx.count(kind); ctx.traces += 1
    # identical units
    for D in (1, 3):
        X = np.array(([[0.0] * D] + [[(2 / 3 if j <= d else 0.0) for j in range(D)] for d in range(D)]) * 4)
        Y = np.array(([1.0] + [float(3 * d - 1) for d in range(D)]) * 4)
        S = ctx.call(morris.analyze, prob(D), X, Y, num_levels=4, num_resamples=30, seed=2)
        if is_err(S) or not (np.abs(np.asarray(S["mu_star_conf"], float)) < 1e-9).all():
            ctx.bad("identical-units", dict(method="morris", D=D), S)
        X = np.array(([[0.25] * D] + [[(0.5 if j == d else 0.25) for j in range(D)] for d in range(D)]) * 4)
        S = ctx.call(dgsm.analyze, prob(D), X, Y, num_resamples=30, seed=2)
        if is_err(S) or not (np.abs(np.asarray(S["dgsm_conf"], float)) < 1e-9).all():
            ctx.bad("identical-units", dict(method="dgsm", D=D), S)


# --- transcription of the spectral estimators, for the distribution of half-size replicates ---
def fast_S(y, M):
    N = len(y); om = (N - 1) // (2 * M)
    k = np.arange(1, -(-N // 2))
    Sp = np.abs(np.exp(-2j * np.pi * np.outer(k, np.arange(N)) / N) @ y) ** 2
    return Sp[np.arange(1, M + 1) * om - 1].sum() / Sp.sum(), 1 - Sp[:om // 2].sum() / Sp.sum()


def rbd_S(x, y, M):
    o = np.argsort(x, kind="stable"); o = np.r_[o[::2], o[1::2][::-1]]
    y = y[o] - y.mean(); N = len(y)
    k = np.arange(1, N // 2 + 1)
    Sp = np.abs(np.exp(-2j * np.pi * np.outer(k, np.arange(N)) / N) @ y) ** 2
    if N % 2 == 0:
        Sp[-1] /= 2
    s = Sp[:M].sum() / Sp.sum(); lam = 2 * M / N
    return s - lam / (1 - lam) * (1 - s)


def delta_S1(x, y, M):
    xr = np.argsort(np.argsort(x, kind="stable"), kind="stable") + 1
    N = len(y); m = [N * i / M for i in range(M + 1)]; v = 0
    for a, b in zip(m[:-1], m[1:]):
        ix = (xr > a) & (xr <= b)
        v += ix.sum() / N * (y[ix].mean() - y.mean()) ** 2
    return v / y.var()


def spectral_part(ctx):
    g = ctx.nprng
    N = 100
    X = g.random((N, 2)); Y = X[:, 0] * 4 + np.sin(6 * X[:, 1]) + g.normal(0, .2, N)
    p = prob(2)
    B = 4000
    ex = {}
    # one output that stands out: whether a replicate holds it, and how often, shows in the spread
    spike = np.r_[50.0, g.random(12)]; at = g.permutation(13); spike = spike[at]
    a = np.array([fast_S(spike[g.integers(13, size=7)], 1) for _ in range(B)]).std(axis=0, ddof=1)
    S = ctx.call(fast.analyze, prob(1), spike, M=1, num_resamples=B, conf_level=0.9, seed=2)
    if is_err(S): ctx.bad("valid-request-fails", dict(method="fast", N=13, M=1), S)
    else:
        for key, w in zip(("S1_conf", "ST_conf"), a):
            if abs(float(S[key][0]) / Z(0.9) / w - 1) > 0.09: ctx.bad("conf-distribution", dict(method="fast", Y=spike, M=1, resamples=B), f"{key}={float(S[key][0]) / Z(0.9)} expected about {w}")
    for i in range(2):
        a = np.array([fast_S(Y[i * 50:(i + 1) * 50][g.integers(50, size=25)], 2) for _ in range(B)])
        ex["fast", "S1_conf", i], ex["fast", "ST_conf", i] = a.std(axis=0, ddof=1)
        b = []
        for _ in range(B):
            r = g.integers(N, size=N // 2); b.append(rbd_S(X[r, i], Y[r], 5))
        ex["rbd", "S1_conf", i] = np.std(b, ddof=1)
        b = []
        for _ in range(B):
            r = g.integers(N, size=N); b.append(delta_S1(X[r, i], Y[r], 4))
        ex["delta", "S1_conf", i] = np.std(b, ddof=1)
    runs = {"fast": lambda **k: fast.analyze(p, Y, M=2, **k), "rbd": lambda **k: rbd_fast.analyze(p, X, Y, M=5, **k),
            "delta": lambda **k: delta.analyze(p, X, Y, method="sobol", **k)}
    for nm, f in runs.items():
        S = ctx.call(f, num_resamples=4000 if nm == "fast" else 1500, conf_level=0.9, seed=5)
        if is_err(S):
            ctx.bad("valid-request-fails", dict(method=nm), S); continue
        # few replicates, many seeds: the mean square reveals the divisor of the spread
        K = 300
        sq = {}
        for s in range(K):
            T = ctx.call(f, num_resamples=2, conf_level=0.9, seed=s)
            for (m, key, i) in ex:
                if m == nm:
                    sq.setdefault((key, i), []).append(float(T[key][i]) ** 2)
        for (m, key, i), w in ex.items():
            if m != nm:
                continue
            v = float(S[key][i]) / Z(0.9)
            if abs(v / w - 1) > (0.09 if nm == "fast" else 0.15):
                ctx.bad("conf-distribution", dict(method=nm, N=N), f"{key}[{i}]={v} expected about {w}")
            q = np.sqrt(np.mean(sq[key, i])) / Z(0.9)
            if abs(q / w - 1) > 0.25:
                ctx.bad("conf-few-resamples", dict(method=nm, N=N, resamples=2), f"rms {key}[{i}]={q} expected about {w}")
        ctx.count("spectral")
    # the delta family has no closed form here: shape, sign and growth only (see generic_part)


def generic_part(ctx):
    """all six analyses: sign, one entry per index, exact quantile ratio, rejected levels."""
    g = ctx.nprng
    rnd = ctx.rnd
    for D, grp in ((2, None), (3, None), (4, ["a", "b", "a", "c"]), (6, None)):
        p = prob(D)
        pg = prob(D, grp)
        N = 120
        X = g.random((N, D)); Y = X @ np.arange(1, D + 1) + X[:, 0] * X[:, -1]
        f = lambda x: x @ np.arange(1, D + 1) + x[:, 0] * x[:, -1] ** 2
        Xm = morris_sample(dict(pg), 12, num_levels=4, seed=3)
        G = len(set(grp)) if grp else D
        Xs = s_sobol.sample(dict(pg), 16, seed=1)
        Xd = []
        for i in range(30):
            b = g.random(D) * .8; Xd.append(b)
            for j in range(D):
                q = b.copy(); q[j] += .05; Xd.append(q)
        Xd = np.array(Xd)
        keysd = ["delta_balanced_conf", "delta_raw_conf", "S1_conf"]
        fam = {
            "sobol": (lambda **k: sobol.analyze(pg, f(Xs), **k), ["S1_conf", "ST_conf", "S2_conf"], G),
            "morris": (lambda **k: morris.analyze(pg, Xm, f(Xm), **k), ["mu_star_conf"], G),
            "fast": (lambda **k: fast.analyze(p, np.tile(Y, D), M=2, **k), ["S1_conf", "ST_conf"], D),
            "rbd_fast": (lambda **k: rbd_fast.analyze(p, X, Y, M=4, **k), ["S1_conf"], D),
            "delta": (lambda **k: delta.analyze(p, np.vstack([X, 1 - X]), np.r_[Y, Y[::-1]], **k), keysd, D),
            "dgsm": (lambda **k: dgsm.analyze(p, Xd, f(Xd), **k), ["dgsm_conf"], D),
        }
        for nm, (fn, keys, K) in fam.items():
            sd = rnd.randint(0, 1000)
            base = ctx.call(fn, num_resamples=8, conf_level=0.95, seed=sd)
            desc = dict(method=nm, D=D, groups=grp, seed=sd)
            if is_err(base):
                ctx.bad("valid-request-fails", desc, base); continue
            for k in keys:
                v = np.asarray(base[k], float)
                if v.shape != ((K, K) if k == "S2_conf" else (K,)):
                    ctx.bad("conf-shape", desc, f"{k}: {v.shape}")
                w = v[~np.isnan(v)] if k == "S2_conf" else v
                if k == "S2_conf" and len(w) != K * (K - 1) // 2:
                    ctx.bad("conf-shape", desc, f"{k}: {len(w)} values")
                if not (w >= 0).all():
                    ctx.bad("conf-sign", desc, f"{k}: {w}")
                if nm in ("fast", "rbd_fast", "delta") and not (w > 0).all():
                    ctx.bad("conf-degenerate", desc, f"{k}: {w}")
            for cl in (0.5, 0.68, 0.9, 0.99, 0.999, 0.05):
                S = ctx.call(fn, num_resamples=8, conf_level=cl, seed=sd)
                ctx.samples += 1
                if is_err(S):
                    ctx.bad("valid-level-rejected", dict(desc, level=cl), S); continue
                for k in keys:
                    a, b = np.asarray(base[k], float).ravel(), np.asarray(S[k], float).ravel()
                    for x, y in zip(a, b):
                        if not close(x * Z(cl) / Z(.95), y, 1e-7, 1e-10):
                            ctx.bad("conf-level-scaling", dict(desc, level=cl), f"{k}: {x} -> {y}, expected {x*Z(cl)/Z(.95)}"); break
            for cl in (0.0, 1.0, -0.2, 1.2, 95):
                S = ctx.call(fn, num_resamples=4, conf_level=cl, seed=sd)
                if not is_err(S):
                    ctx.bad("invalid-level-accepted", dict(desc, level=cl))
            ctx.count("generic")
        if ctx.full:
            return


def run(ctx):
    ctx.neighbours(sobol, fast, rbd_fast, delta, dgsm, morris)
    ctx.model("MCBootstrap", "SPECIFICATION MCSpec\nCONSTANTS\n MaxN = 3\n V = 2\nINVARIANTS InRange NoSpread OnlySums\nCHECK_DEADLOCK FALSE\n", cover=["Draw", "Emit"])
    sobol_part(ctx)
    if ctx.full: return
    mean_part(ctx)
    if ctx.full: return
    generic_part(ctx)
    if ctx.full: return
    spectral_part(ctx)
