"""C08: samples are quantiles of each parameter's own distribution (spec/Dist.tla)."""
import copy
from fractions import Fraction as Fr
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.util import scale_samples
from SALib.sample import sobol, saltelli, latin, fast_sampler, morris, finite_diff, ff
import distlib
from distlib import phi

SAMPLERS = {
    "sobol": lambda p, s: sobol.sample(p, 8, seed=s, calc_second_order=False),
    "sobol2": lambda p, s: sobol.sample(p, 4, seed=s, calc_second_order=True),
    "sobol-unscrambled": lambda p, s: sobol.sample(p, 4, scramble=False, skip_values=4),
    "saltelli": lambda p, s: saltelli.sample(p, 8),
    "latin": lambda p, s: latin.sample(p, 12, seed=s),
    "fast_sampler": lambda p, s: fast_sampler.sample(p, 65, seed=s),
    "morris": lambda p, s: morris.sample(p, 4, num_levels=6, seed=s),
    "morris-opt": lambda p, s: morris.sample(p, 5, num_levels=4, optimal_trajectories=3, seed=s),
    "finite_diff": lambda p, s: finite_diff.sample(p, 8, seed=s),
    "ff": lambda p, s: ff.sample(p, seed=s),
}
ENDPOINTS = {"morris", "morris-opt", "ff"}       # these designs contain the levels 0 and 1
BOUNDED = ["unif", "triang", "logunif", "truncnorm"]


def fr(b):
    return [[Fr(x).limit_denominator(10**6).numerator, Fr(x).limit_denominator(10**6).denominator] for x in b]


def level(u):
    p = [rat(q) for q in u["p"]]
    if u["k"] == "rat": return p[0]
    if u["k"] == "phi": return phi(p[0])
    if u["k"] == "weib": return -math.expm1(-p[0])
    z, a, b = p
    if a > 0:
        return (phi(-a) - phi(-z)) / (phi(-a) - phi(-b))
    return (phi(z) - phi(a)) / (phi(b) - phi(a))


def dense(v):
    u = sorted(set(v)); m = {x: i for i, x in enumerate(u)}
    return [m[x] for x in v]


def sup(d, b, x):
    if math.isnan(x): return 0
    if d == "triang":
        lo, hi = (b[0], b[1]) if len(b) == 3 else (0, b[0])
    elif d in ("unif", "logunif", "truncnorm"): lo, hi = b[0], b[1]
    elif d == "lognorm": lo, hi = 0, math.inf
    elif d == "weibull": lo, hi = (b[2] if len(b) == 3 else 0), math.inf
    else: lo, hi = -math.inf, math.inf
    s = 1e-9 * (abs(hi - lo) if math.isfinite(hi - lo) else 1)
    return int(lo - s <= x <= hi + s)


def run(ctx):
    ctx.neighbours(sobol, saltelli, latin, fast_sampler, morris, finite_diff, ff)
    big = ctx.thorough
    for four in ((False, True) if big else (False,)):
        ctx.model("MCDist", f"SPECIFICATION Spec\nCONSTANTS\n Four = {str(four).upper()}\nINVARIANTS Monotone Support Levels NoNumbers\nCHECK_DEADLOCK FALSE\n", cover=["Reject", "Accept", "Scale"] + ([] if four else ["ScaleLog"]))
    rnd = ctx.rnd
    # ---- landmark tables
    F = Fr
    H = [F(-5000), F(5000), F(-5, 2), F(-1), F(0), F(1, 4), F(1, 2), F(1), F(2), F(3), F(13, 2), F(10)]
    pool = []
    for _ in range(300 if big else 110):
        d = rnd.choice(distlib.DISTS)
        n = {"triang": rnd.choice([3, 3, 3, 2]), "truncnorm": 4, "weibull": rnd.choice([2, 3])}.get(d, 2)
        lo = rnd.choice(H); hi = lo + rnd.choice([F(1, 4), F(1), F(3), F(7, 2)]); pos = rnd.choice([F(1, 4), F(1, 2), F(1), F(2), F(3)])
        c = rnd.choice([F(0), F(1, 10), F(1, 4), F(1, 2), F(3, 4), F(9, 10)])
        b = {"unif": [lo, hi], "triang": [lo, hi, c] if n == 3 else [pos, c], "norm": [lo, pos], "lognorm": [rnd.choice([min(max(lo, F(-40)), F(3)), F(-30), F(25)]), min(pos, F(2))],
             "truncnorm": [lo, hi, lo + rnd.choice([F(-1, 2), F(0), F(1, 2), F(1)]), rnd.choice([F(1, 2), F(1), F(2)])],
             "weibull": [rnd.choice([F(1, 2), F(1), F(2), F(3), F(3, 2), F(2, 3)]), pos] + ([lo] if n == 3 else []), "logunif": None}[d]
        r, m = F(2), 2
        if d == "logunif":
            r, m = rnd.choice([F(2), F(3), F(3, 2), F(10)]), rnd.choice([1, 2, 3, 4]); b = [pos, pos * r**m]
        pool.append((d, b, r, m))
    for k in (2000, 40000, 10**6):       # large magnitudes, either sign
        k = F(k)
        pool += [("unif", [-k, k / 2], F(2), 2), ("unif", [k, k + 1], F(2), 2), ("triang", [-k, -k / 2, F(1, 4)], F(2), 2), ("triang", [-k, k, F(1, 2)], F(2), 2),
                 ("triang", [k, 2 * k, F(3, 4)], F(2), 2), ("triang", [k, F(1, 4)], F(2), 2), ("norm", [-k, k / 8], F(2), 2), ("norm", [k, F(1)], F(2), 2), ("weibull", [F(2), k, -k], F(2), 2),
                 ("weibull", [F(1, 2), F(1), k], F(2), 2), ("truncnorm", [-k, k, F(0), k], F(2), 2), ("truncnorm", [k, 2 * k, 3 * k / 2, k / 2], F(2), 2), ("logunif", [k, 4 * k], F(2), 2)]
    pool += [("logunif", [F(1, 1000), F(1000)], F(1000), 2), ("logunif", [F(1, 2000), F(1)], F(2000), 1)]
    for d in distlib.DISTS + ["beta", "uniform", "UNIF", ""]:    # legality grid
        for _ in range(70 if big else 30):
            n = rnd.choice([2, 2, 3, 4]) if d not in ("truncnorm",) else 4
            if d == "triang" and n == 4 and rnd.random() < .7: n = 3
            b = [rnd.choice([F(-2), F(-1), F(0), F(1, 4), F(1), F(1), F(2), F(4)]) for _ in range(n)]
            if d in ("unif", "norm", "lognorm", "logunif"): b = b[:2]
            if d == "logunif" and 0 < b[0] < b[1]: pool.append((d, b, b[1] / b[0], 1))
            else: pool.append((d, b, F(2), 1))
    cases = [dict(kind="marks", d=d, b=fr(b), r=[r.numerator, r.denominator], m=m) for d, b, r, m in pool]
    # ---- sampler columns
    cols, cm = [], []
    jobs = []
    for r in range(12 if big else 5):
        for name in SAMPLERS:
            jobs.append((name, r))
    for i, (name, r) in enumerate(jobs):
        D = rnd.randint(2, 7)
        g = None
        if name not in ("finite_diff", "ff", "fast_sampler") and r % 2:
            while g is None or len(set(g)) < 2: g = [rnd.randrange(min(D, 4)) for _ in range(D)]
        ds = [rnd.choice(BOUNDED if name in ENDPOINTS else distlib.DISTS) for _ in range(D)]
        p = distlib.problem(rnd, D, g, None if r == 4 else ds)
        if name == "finite_diff" and p.get("dists"):
            for b, d in zip(p["bounds"], p["dists"]):
                if d == "triang" and len(b) == 2: b[:] = [0.0] + b
        base = {k: copy.deepcopy(v) for k, v in p.items() if k not in ("dists", "bounds")}; base["bounds"] = [[0.0, 1.0]] * D
        s = 100 * ctx.seed + i
        desc = dict(sampler=name, problem=p, seed=s)
        mk = ProblemSpec if i % 6 == 1 else (lambda q: q)
        U = ctx.call(SAMPLERS[name], mk(copy.deepcopy(base)), s); X = ctx.call(SAMPLERS[name], mk(copy.deepcopy(p)), s)
        if is_err(U) or is_err(X) or U.shape != X.shape:
            ctx.bad("valid-request-fails", desc, (U, X) if is_err(U) or is_err(X) else (U.shape, X.shape))
            if ctx.full: return
            continue
        rows = range(0, len(X), D + 1) if name == "finite_diff" else range(len(X))
        dl = (p.get("dists") or ["unif"] * D)
        for j in range(D):
            d, b = dl[j], p["bounds"][j]
            u = [float(U[k, j]) for k in rows]; x = [float(X[k, j]) for k in rows]
            for k in range(len(u)):
                e = distlib.Q(d, b, u[k]); w = abs(distlib.Q(d, b, 0.75) - distlib.Q(d, b, 0.25))
                if not close(x[k], e, 1e-8, 1e-7 * w if d != "truncnorm" else 1e-6 * w):
                    ctx.bad("not-the-quantile", dict(desc, column=j, row=k), f"level {u[k]!r} of {d}{b}: expected {e!r}, sampled {x[k]!r}"); break
            if ctx.full: return
            # ties in the design up to rounding are merged before ranking
            ur = [round(v, 9) for v in u]; ru = dense(ur)
            o = {}
            for a, v in zip(ru, x): o.setdefault(a, v)
            xr = [o[a] if abs(o[a] - v) <= 1e-7 * max(abs(v), 1e-300) + 1e-9 else v for a, v in zip(ru, x)]
            cols.append(dict(kind="column", ru=ru, rx=dense(xr), sup=[sup(d, b, v) for v in x])); cm.append(dict(desc, column=j))
            ctx.samples += len(u)
        if name == "ff":
            for j in range(D, X.shape[1]):
                if not np.array_equal(X[:, j], U[:, j]): ctx.bad("dummy-column-altered", desc)
    bad1 = copy.deepcopy(next(c for c in cols if len(set(c["ru"])) > 3)); i0 = next(i for i in range(len(bad1["ru"])) if bad1["ru"][i] != bad1["ru"][0]); bad1["rx"][0], bad1["rx"][i0] = bad1["rx"][i0], bad1["rx"][0]
    bad2 = copy.deepcopy(cols[0]); bad2["sup"][0] = 0
    for c, m, v in zip(cols, cm, ctx.trace("DistOracle", cols, selftest=[(bad1, "not-monotone"), (bad2, "outside-support")])):
        ctx.count("columns")
        if not v["ok"]:
            ctx.bad(v["clause"], m, v["at"])
            if ctx.full: return
    # ---- landmarks and legality against scale_samples and the samplers
    for (d, b, r, m), c, res in zip(pool, cases, ctx.oracle("DistOracle", cases)):
        fb = [float(x) for x in b]
        others = [distlib.bounds(k, rnd) for k in ("unif", "norm")]
        k = rnd.randrange(3)
        bnds = others[:]; bnds.insert(k, fb); dists = ["unif", "norm"]; dists.insert(k, d)
        p = dict(num_vars=3, names=["a", "b", "c"], bounds=bnds, dists=dists)
        desc = dict(dist=d, bounds=fb, column=k)
        if not res["valid"]:
            ctx.count("illegal")
            X = ctx.call(scale_samples, np.array([[.2, .5, .7], [.4, .1, .9]]), copy.deepcopy(p))
            if not is_err(X, "ValueError"):
                ctx.bad("illegal-accepted", desc, X)
            nm = rnd.choice([n for n in SAMPLERS if not (n == "ff")])
            X = ctx.call(SAMPLERS[nm], copy.deepcopy(p), 3)
            if not is_err(X, "ValueError"):
                ctx.bad("illegal-accepted", dict(desc, sampler=nm), X)
            if d == "unif":      # default distribution
                q = dict(num_vars=3, names=["a", "b", "c"], bounds=[[0, 1], fb, [0, 2]])
                for nm in (list(SAMPLERS) if big else [rnd.choice(list(SAMPLERS))]):
                    X = ctx.call(SAMPLERS[nm], copy.deepcopy(q), 3)
                    if not is_err(X, "ValueError"):
                        ctx.bad("illegal-accepted", dict(sampler=nm, bounds=q["bounds"]), X)
            if ctx.full: return
            continue
        ctx.count("legal")
        us = [level(mk["u"]) for mk in res["marks"]]
        es = [math.exp(rat(mk["x"])) if mk["ln"] else rat(mk["x"]) for mk in res["marks"]]
        if d == "truncnorm" and ((fb[0] - fb[2]) / fb[3] > 3.5 or (fb[1] - fb[2]) / fb[3] < -3.5):
            us, es = [0.0, 1.0], [fb[0], fb[1]]     # far tails: levels of interior landmarks are not representable
        elif d == "truncnorm":                      # levels this close to 0 or 1 are not representable either
            keep = [i for i, e in enumerate(es) if e in (fb[0], fb[1]) or abs(e - fb[2]) <= 4.5 * fb[3]]
            us, es = [us[i] for i in keep], [es[i] for i in keep]
        for u, e in zip(us, es):
            q = distlib.Q(d, fb, u)
            if not close(q, e, 1e-8, 1e-8):
                raise MachineryError(f"distlib.Q({d},{fb},{u})={q} but specification says {e}")
        U = np.full((len(us), 3), 0.5); U[:, k] = us
        form = rnd.randrange(3)
        q = copy.deepcopy(p)
        if form == 1: q["bounds"] = [tuple(x) for x in q["bounds"]]
        if form == 2: q["dists"] = tuple(q["dists"])
        X = ctx.call(scale_samples, U.copy(), q)
        if is_err(X):
            ctx.bad("legal-rejected", desc, X)
            if ctx.full: return
            continue
        w = abs(es[-1] - es[0]) or 1.0
        for u, e, x in zip(us, es, X[:, k]):
            if not close(x, e, 1e-8, 1e-7 * w):
                ctx.bad("landmark", desc, f"level {u!r}: expected {e!r}, got {x!r}"); break
        if q.get("sample_scaled") is not True:
            ctx.bad("sample_scaled", desc)
        if ctx.full: return
    # ---- wrong number of distributions
    for D, ds in ((3, ["unif"] * 2), (3, ["unif"] * 4), (2, ["norm"]), (3, [])):
        for nm in SAMPLERS:
            p = dict(num_vars=D, names=[f"p{j}" for j in range(D)], bounds=[[0.5, 1]] * D, dists=ds)
            if nm == "ff" : p["num_vars"] = D
            X = ctx.call(SAMPLERS[nm], copy.deepcopy(p), 3)
            ctx.count("dist-count")
            if not ds: continue
            if not is_err(X):
                ctx.bad("wrong-dist-count-accepted", dict(sampler=nm, problem=p), X)
