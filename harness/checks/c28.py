"""C28: bundled test functions (spec/TestFunctions.tla)."""
from fractions import Fraction as Fr
from vlib import *
import numpy as np
from SALib.test_functions import Sobol_G, Ishigami, linear_model_1, linear_model_2, oakley2004, lake_problem
from SALib.util import read_param_file
import SALib.test_functions as tf

q = lambda f: [Fr(f).numerator, Fr(f).denominator]
SQ = [Fr(a, b) ** 2 for b in (1, 2, 3, 4) for a in range(0, b + 1)]


def layouts(ctx, X):
    """the same matrix as other callers may hold it"""
    k = ctx.rnd.randrange(6)
    if k == 1: return np.asfortranarray(X)
    if k == 2: return np.repeat(X, 2, axis=0)[::2]
    if k == 3: return np.hstack([X, X])[:, :X.shape[1]]
    if k == 4: X = X.copy(); X.flags.writeable = False; return X
    return X.copy()


def rows(ctx, tag, fn, X, want, case, rtol=1e-9, atol=1e-9):
    """fn(X) row by row: shape, values, independence of the other rows, X unchanged"""
    V = layouts(ctx, X); keep = V.copy()
    Y = ctx.call(fn, V)
    c = dict(case, function=tag, X=X)
    if is_err(Y): return ctx.bad("refused", c, f"{tag}: {Y}")
    Y = np.asarray(Y)
    if Y.shape != (len(X),): return ctx.bad("shape", c, f"{tag}: shape {Y.shape} for {len(X)} rows")
    if not np.array_equal(V, keep): ctx.bad("input-modified", c, tag)
    for i in range(len(X)):
        ctx.samples += 1
        if want is not None and not close(Y[i], want[i], rtol, atol): return ctx.bad("value", c, f"{tag}: row {i} gives {Y[i]!r}, formula {want[i]!r}")
    perm = np.array(ctx.rnd.sample(range(len(X)), len(X)), dtype=int)
    Z = ctx.call(fn, X[perm].copy())
    if is_err(Z) or not np.allclose(Z, Y[perm], rtol=1e-12, atol=1e-12, equal_nan=True): return ctx.bad("row-dependence", c, f"{tag}: values change when rows are reordered")
    for i in ctx.rnd.sample(range(len(X)), min(2, len(X))):
        z = ctx.call(fn, X[i:i + 1].copy())
        if is_err(z) or np.shape(z) != (1,) or not close(z[0], Y[i], 1e-12, 1e-12): return ctx.bad("row-dependence", c, f"{tag}: row {i} alone gives {z!r}, among others {Y[i]!r}")
    z = ctx.call(fn, X[:0].copy())
    if is_err(z) or np.shape(z) != (0,): ctx.bad("no-rows", c, f"{tag}: {z!r}")


def run(ctx):
    big = ctx.thorough; rnd = ctx.rnd; mul = 4 if big else 1
    inv = "INVARIANTS UnitMean PartIsVariance TotalIsSum FirstIsShare TotalIndexIsShare Ordered ShiftPeriodic\nCHECK_DEADLOCK FALSE\n"
    ctx.model("MCTestFunctions", "SPECIFICATION Spec\nCONSTANTS\n Halves = {0, 1, 2, 4}\n Pset = {1, 2}\n D = 2\n" + inv, cover=["Add"])
    ctx.model("MCTestFunctions", f"SPECIFICATION Spec\nCONSTANTS\n Halves = {{0, 2}}\n Pset = {{1{', 2' if big else ''}}}\n D = {4 if big else 3}\n" + inv)
    ctx.model("MCTestFunctions", "SPECIFICATION Spec\nCONSTANTS\n Halves = {0, 2}\n Pset = {1}\n D = 2\nINVARIANT Additive\nCHECK_DEADLOCK FALSE\n", expect_ok=False)
    fr = lambda lo, hi, dens=(1, 2, 4, 5): (lambda d: Fr(rnd.randint(lo * d, hi * d), d))(rnd.choice(dens))
    jobs, cases = [], []
    def ask(c): cases.append(c); return len(cases) - 1

    # Ishigami
    for k in range(24 * mul):
        n = rnd.choice([1, 2, 5, 17, 40]); A, B = rnd.choice([(Fr(7), Fr(1, 10)), (fr(-3, 9), fr(-1, 2)), (Fr(0), fr(0, 1)), (fr(1, 9), Fr(0))])
        pts = [(rnd.choice([0, 1, 3, 5, 6, 7, 9, 11, -1, -3, -6, 13, 15]), rnd.choice([0, 2, 3, 4, 6, 8, 9, 10, -2, -3, -4, -6, 14]), fr(-3, 3, (1, 2, 3))) for _ in range(n)]
        X = np.array([[i * math.pi / 6, j * math.pi / 12, float(x)] for i, j, x in pts])
        kw = {} if (A, B) == (Fr(7), Fr(1, 10)) and rnd.random() < .5 else dict(A=float(A), B=float(B))
        ids = [ask(dict(f="ishigami", i=i, j=j, x3=q(x), A=q(A), B=q(B))) for i, j, x in pts]
        jobs.append(("Ishigami", (lambda kw: lambda Z: Ishigami.evaluate(Z, **kw))(kw), X, ids, dict(kw=kw), lambda r: rat(r["v"])))
    # linear models
    for k in range(20 * mul):
        n = rnd.choice([1, 2, 5, 6, 30])
        for f, m in (("linear1", linear_model_1), ("linear2", linear_model_2)):
            pts = [[fr(-9, 9) for _ in range(5)] for _ in range(n)]
            jobs.append((f, m.evaluate, np.array([[float(v) for v in p] for p in pts]), [ask(dict(f=f, x=[q(v) for v in p])) for p in pts], {}, lambda r: rat(r["v"])))
    # Oakley & O'Hagan
    h = math.pi / 2
    for k in range(24 * mul):
        D = rnd.choice([1, 2, 3, 5, 15]); n = rnd.choice([1, 2, 7]); g = lambda: [rnd.randint(-4, 4) for _ in range(D)]
        a1, a2, a3 = g(), g(), g(); M = [g() for _ in range(D)]
        pts = [[rnd.randint(-4, 4) for _ in range(D)] for _ in range(n)]
        jobs.append(("oakley", (lambda A, M: lambda Z: oakley2004.evaluate(Z, A, M))(np.array([a1, a2, a3], float), np.array(M, float)), np.array(pts, float) * h,
                     [ask(dict(f="oakley", k=p, a1=a1, a2=a2, a3=a3, M=M)) for p in pts], dict(A=[a1, a2, a3], M=M), lambda r: r["v"][0] + r["v"][1] * h + r["v"][2] * h * h))
    # Sobol-G
    DEF = [Fr(0), Fr(1), Fr(9, 2), Fr(9)] + [Fr(99)] * 4
    def prod(r): return math.prod(rat(v) for v in r["v"])
    for k in range(60 * mul):
        mode = k % 4                     # plain / coefficients / shifted / curved
        D = 8 if mode == 0 else rnd.choice([1, 2, 3, 6, 9, 24])
        a = DEF if mode == 0 else [rnd.choice([Fr(0), Fr(1), Fr(9, 2), Fr(9), Fr(99), fr(0, 5), Fr(-1, 2)]) for _ in range(D)]
        d = [rnd.choice([Fr(0), Fr(1), Fr(1, 2), fr(0, 1, (2, 4, 8, 5))]) for _ in range(D)] if mode in (2, 3) and k % 3 else [Fr(0)] * D
        half = mode == 3 and k % 8 == 7 and not any(d)
        p = [rnd.choice([Fr(1, 2), Fr(3, 2), Fr(1), Fr(2), Fr(5, 2)]) if half else rnd.choice([Fr(1), Fr(2), Fr(3)]) for _ in range(D)] if mode == 3 else [Fr(1)] * D
        n = rnd.choice([1, 3, 10, 25]) if D < 20 else rnd.choice([1, 4])
        def x(): return rnd.choice([Fr(0), Fr(1), Fr(1, 2), fr(0, 1, (8, 10, 16))]) if not half else (1 + rnd.choice([-1, 1]) * rnd.choice(SQ)) / 2
        pts = [[x() for _ in range(D)] for _ in range(n)]
        kw = {}
        if mode: kw["a"] = np.array([float(v) for v in a])
        if any(d) or rnd.random() < .3: kw["delta"] = np.array([float(v) for v in d])
        if mode == 3: kw["alpha"] = np.array([float(v) for v in p])
        ids = [ask(dict(f="g", x=[q(v) for v in r], a=[q(v) for v in a], d=[q(v) for v in d], p=[q(v) for v in p])) for r in pts]
        jobs.append(("Sobol_G", (lambda kw: lambda Z: Sobol_G.evaluate(Z, **kw))(kw), np.array([[float(v) for v in r] for r in pts]), ids, dict(kw=kw), prod))
    # Sobol-G: limits of its domain
    lim = []
    E = Fr(1, 1 << 20)
    for v, where in [(-E, "x"), (1 + E, "x"), (Fr(-1), "x"), (Fr(2), "x"), (Fr(0), "x"), (Fr(1), "x"), (-E, "d"), (1 + E, "d"), (Fr(0), "d"), (Fr(1), "d"), (Fr(-1), "d"), (Fr(0), "p"), (Fr(-1), "p"), (E, "p"), (-E, "p"), (Fr(1), "p")]:
        for D in (1, 3):
            for at in range(D):
                for n in (1, 3):
                    x, d, p = [Fr(1, 2)] * D, [Fr(1, 4)] * D, [Fr(1)] * D
                    {"x": x, "d": d, "p": p}[where][at] = v
                    lim.append((D, n, at, where, v, x, d, p, ask(dict(f="g", x=[q(t) for t in x], a=[[1, 1]] * D, d=[q(t) for t in d], p=[q(t) if where == "p" and t <= 0 else [1, 1] for t in p]))))
    # reference indices
    ref = []
    for k in range(40 * mul):
        D = rnd.choice([1, 2, 2, 3]); a = [rnd.choice([Fr(0), Fr(1), Fr(2), Fr(9), Fr(1, 2), Fr(3)]) for _ in range(D)]; p = [rnd.choice([Fr(1), Fr(1), Fr(2), Fr(1, 2)]) if k % 2 else Fr(1) for _ in range(D)]
        ref.append((a, p, ask(dict(f="gindex", a=[q(v) for v in a], p=[q(v) for v in p])), True))
    for k in range(20 * mul):
        D = rnd.choice([4, 8, 15, 24, 40]); a = DEF if k % 5 == 0 else [rnd.choice([Fr(0), Fr(1), Fr(9, 2), Fr(9), Fr(99)]) for _ in range(D)]; p = [rnd.choice([Fr(1), Fr(2), Fr(3, 2)]) if k % 2 and a is not DEF else Fr(1) for _ in a]
        ref.append((a, p, ask(dict(f="gparts", a=[q(v) for v in a], p=[q(v) for v in p])), False))
    # lake
    lake = []
    for k in range(40 * mul):
        X, a, b, e = fr(0, 2, (1, 2, 4)), fr(0, 1, (8, 10)), fr(0, 1, (4, 5)), fr(0, 1, (10, 50)); qq = rnd.choice([1, 2, 2, 3, 4])
        lake.append((X, a, qq, b, e, ask(dict(f="lakestep", X=q(X), a=q(a), q=qq, b=q(b), e=q(e)))))
    util = []
    for k in range(16 * mul):
        n = rnd.choice([1, 2, 3, 4]); al, a, de = fr(0, 1, (5, 10)), rnd.choice([Fr(1, 50), Fr(1, 100), Fr(1, 25), Fr(1, 10)]), rnd.choice([Fr(19, 20), Fr(9, 10), Fr(1), Fr(1, 2)])
        util.append((n, al, a, de, ask(dict(f="lakeutil", al=q(al), a=q(a), de=q(de), n=n))))
    runs = []
    for k in range(12 * mul):
        a, b, m = Fr(rnd.randint(0, 8), 8), Fr(rnd.randint(1, 3), 4), Fr(rnd.randint(1, 3), 8)
        runs.append((a, b, m, ask(dict(f="lakerun", a=q(a), q=2, b=q(b), e=q(m), n=2))))
    res = ctx.oracle("TestFunOracle", cases, batch=700)

    for tag, fn, X, ids, case, val in jobs:
        ctx.count(tag); ctx.traces += 1
        rows(ctx, tag, fn, X, [val(res[i]) for i in ids], case)
        if ctx.full: return
    for D, n, at, where, v, x, d, p, i in lim:
        ctx.count("G-limits"); ctx.samples += 1
        X = np.full((n, D), .5); X[rnd.randrange(n)] = [float(t) for t in x]
        kw = dict(a=np.ones(D))
        if where == "d" or rnd.random() < .3: kw["delta"] = np.array([float(t) for t in d])
        if where == "p" or rnd.random() < .3: kw["alpha"] = np.array([float(t) for t in p])
        Y = ctx.call(Sobol_G.evaluate, X, **kw); c = dict(X=X, kw=kw)
        if res[i]["ok"] and is_err(Y): ctx.bad("G-refused-inside", c, Y)
        if not res[i]["ok"] and not is_err(Y, "ValueError"): ctx.bad("G-accepted-outside", c, f"{where}[{at}] = {float(v)} accepted: {Y!r}")
    for bad in ([[.5, .5]], 3.0, "x", ((.5,),)):
        ctx.count("G-types")
        if not is_err(ctx.call(Sobol_G.evaluate, bad, a=np.zeros(2)), "TypeError"): ctx.bad("G-type", dict(values=bad), "values of another type accepted")
        for w in ("delta", "alpha"):
            if not is_err(ctx.call(Sobol_G.evaluate, np.full((1, 2), .5), a=np.zeros(2), **{w: bad}), "TypeError"): ctx.bad("G-type", {w: bad}, f"{w} of another type accepted")
    for a, p, i, exact in ref:
        ctx.count("G-indices"); ctx.samples += 1; r = res[i]; v = [rat(t) for t in r["v"]]
        if exact: tot, s, st = rat(r["tot"]), [rat(t) for t in r["s"]], [rat(t) for t in r["st"]]
        else:
            pr = math.prod(1 + t for t in v); tot = math.fsum([pr, -1.0]); s = [t / tot for t in v]; st = [t * pr / (1 + t) / tot for t in v]
        plain = all(t == 1 for t in p)
        aa = [float(t) for t in a]; form = rnd.choice(["list", "array", "int"] if all(t.denominator == 1 for t in a) else ["list", "array"])
        av = lambda: [int(t) for t in a] if form == "int" else np.array(aa) if form == "array" else list(aa)
        al = np.array([float(t) for t in p]); opts = [(al,)] + ([(None,)] if plain else [])
        for (alpha,) in opts:
            k = {} if alpha is None else dict(alpha=alpha)
            got = [ctx.call(Sobol_G.sensitivity_index, av(), **k), ctx.call(Sobol_G.total_sensitivity_index, av(), **k), ctx.call(Sobol_G._partial_first_order_variance, av(), **k), ctx.call(Sobol_G._total_variance, av(), **k)]
            for nm, g, w in zip(("S1", "ST", "partial variances", "total variance"), got, (s, st, v, tot)):
                if is_err(g) or np.shape(g) != np.shape(w) or not np.allclose(g, w, rtol=1e-9, atol=1e-12): ctx.bad("reference-indices", dict(a=aa, alpha=al, form=form), f"{nm}: {g!r}, analytic {w!r}")
        if a is DEF:
            for nm, g, w in (("partial", ctx.call(Sobol_G._partial_first_order_variance), v), ("total", ctx.call(Sobol_G._total_variance), tot)):
                if is_err(g) or not np.allclose(g, w, rtol=1e-9): ctx.bad("reference-indices", dict(a="default"), f"{nm}: {g!r} analytic {w!r}")
    # lake problem
    for X, a, qq, b, e, i in lake:
        ctx.count("lake-step"); w = rat(res[i]["v"]); g = ctx.call(lake_problem.lake_problem, float(X), float(a), float(qq), float(b), float(e))
        if is_err(g) or not close(g, w): ctx.bad("lake-step", dict(X=X, a=a, q=qq, b=b, eps=e), f"{g!r} formula {w}")
    if True:
        f = lambda t: np.array([float(r[t]) for r in lake])
        g = ctx.call(lake_problem.lake_problem, f(0), f(1), f(2), f(3), f(4))
        if is_err(g) or not np.allclose(g, [rat(res[r[5]]["v"]) for r in lake]): ctx.bad("lake-step", dict(arrays=True), "array call differs from the formula")
    for n, al, a, de, i in util:
        ctx.count("lake-utility")
        V = np.array([[float(a), 2.0, .42, .02, .001, float(de), float(al)], [.05, 3.0, .3, .03, .002, .95, .3]]); flip = rnd.random() < .5
        g = ctx.call(lake_problem.evaluate, V[::-1].copy() if flip else V.copy(), nvars=n)
        if is_err(g) or g.shape != (2, 4): ctx.bad("lake-shape", dict(values=V, nvars=n), g); continue
        y = g[1 if flip else 0]
        if not close(y[1], rat(res[i]["v"])) or not close(y[2], rat(res[i]["inertia"])): ctx.bad("lake-utility", dict(values=V, nvars=n), f"utility {y[1]}, inertia {y[2]}; formula {rat(res[i]['v'])}, {rat(res[i]['inertia'])}")
        z = ctx.call(lake_problem.evaluate, V[:1].copy(), nvars=n)
        if is_err(z) or not np.allclose(z[0], y): ctx.bad("row-dependence", dict(function="lake", values=V), "a scenario's outcome depends on the others")
        t = ctx.call(lake_problem.evaluate_lake, V[0, :5])
        if is_err(t) or not close(np.max(t), y[0]): ctx.bad("lake-max", dict(values=V), "first output is not the largest concentration")
    for k in range(4 * mul):      # share of the simulated concentrations under the critical one; each row on its own
        ctx.count("lake-objectives"); n = [320, 3, 40][k % 3]; g = np.random.default_rng(1000 * ctx.seed + k); nv = rnd.choice([5, 20, 100])
        ba = g.integers(0, 2, n); V = np.column_stack([g.uniform(0, .25, n), np.full(n, 2.0), np.where(ba, .4, .3), g.uniform(.01, .05, n), g.uniform(.001, .005, n), g.uniform(.9, .99, n), g.uniform(.2, .5, n)])
        crit = np.where(ba, .5, (1 / .3 - math.sqrt(1 / .09 - 4)) / 2); Y = ctx.call(lake_problem.evaluate, V.copy(), nvars=nv, seed=k)
        if is_err(Y) or Y.shape != (n, 4): ctx.bad("lake-shape", dict(values=V, nvars=nv), Y); continue
        for r in sorted(set(rnd.sample(range(n), min(n, 12))) | {0, n - 1}):
            z = ctx.call(lake_problem.evaluate, V[[r]], nvars=nv, seed=k); t = ctx.call(lake_problem.evaluate_lake, V[r, :5], seed=k); u = ctx.call(lake_problem.evaluate_lake, V[[r], :5], seed=k)
            if is_err(z) or is_err(t) or not np.allclose(z[0], Y[r], rtol=1e-12): ctx.bad("row-dependence", dict(function="lake", row=r, rows=n), "a scenario's outcome depends on the others"); break
            if np.abs(t - crit[r]).min() > 1e-5 and not close(Y[r, 3] * nv, np.sum(t < crit[r])): ctx.bad("lake-reliability", dict(values=V[r], nvars=nv), f"{Y[r, 3]} with {np.sum(t < crit[r])} concentrations under {crit[r]}"); break
    for a, b, m, i in runs:
        ctx.count("lake-run"); want = [rat(t) for t in res[i]["v"]]
        V = np.array([[float(a), 2.0, float(b), float(m), 0.0]] * 2); g = ctx.call(lake_problem.evaluate_lake, V)
        if is_err(g) or g.shape != (2, 2) or not np.allclose(g, np.array(want)[:, None]): ctx.bad("lake-run", dict(values=V), f"{g!r} formula {want}")
    for k in range(10):
        n = rnd.choice([2, 5, 30]); g = np.random.default_rng(k); V = np.column_stack([g.uniform(0, .1, n), g.uniform(2, 4.5, n), g.uniform(.1, .45, n), g.uniform(.01, .05, n), g.uniform(.001, .005, n)])
        Y = ctx.call(lake_problem.evaluate_lake, V, seed=k); ctx.count("lake-recurrence")
        if is_err(Y) or Y.shape != (n, n): ctx.bad("lake-shape", dict(values=V), Y); continue
        e = Y[0] - V[:, 0]
        if (e <= 0).any(): ctx.bad("lake-inflow", dict(values=V), "natural inflows must be positive")
        for t in range(1, n):
            if not np.allclose(Y[t], lake_problem.lake_problem(Y[t - 1], V[:, 0], V[:, 1], V[:, 2], e)): ctx.bad("lake-recurrence", dict(values=V, t=t), "a step does not follow from the one before"); break
    # laws at arbitrary arguments
    X = ctx.nprng.uniform(-math.pi, math.pi, (200, 3)); f = lambda A, B, Z=X: Ishigami.evaluate(Z, A=A, B=B)
    A, B = 5.3, .37; base = f(0, 0)
    laws = {"affine in A and B": (f(A, B) - base, A * (f(1, 0) - base) + B * (f(0, 1) - base)), "odd first term": (f(0, 0, X * [-1, 1, 1]), -base), "sine": (base, np.sin(X[:, 0])),
            "half-turn of x2": (f(A, B, X + [0, math.pi, 0]), f(A, B)), "even in x3": (f(A, B, X * [1, 1, -1]), f(A, B)), "reflection of x1": (f(A, B, X * [-1, 1, 1] + [math.pi, 0, 0]), f(A, B)),
            "fourth power of x3": (f(0, B, X * [1, 1, 2]) - base, 16 * (f(0, B) - base)), "complementary x2": ((f(A, 0) - base) + (f(A, 0, X + [0, math.pi / 2, 0]) - base), np.full(200, A))}
    for nm, (u, w) in laws.items():
        ctx.count("laws")
        if not np.allclose(u, w, atol=1e-9): ctx.bad("law", dict(law=nm), f"Ishigami: {nm}")
    # bundled parameter files describe the functions' inputs
    d = os.path.join(os.path.dirname(tf.__file__), "params")
    for fn, D, lo, hi, gr in (("Ishigami.txt", 3, -math.pi, math.pi, None), ("Ishigami_groups.txt", 3, -math.pi, math.pi, ["Group_1", "Group_2", "Group_2"]), ("Sobol_G.txt", 8, 0, 1, None)):
        ctx.count("files"); p = ctx.call(read_param_file, os.path.join(d, fn))
        if is_err(p) or p["num_vars"] != D or p["names"] != [f"x{i + 1}" for i in range(D)] or not np.allclose(p["bounds"], [[lo, hi]] * D, atol=1e-9) or p.get("groups") != gr: ctx.bad("file", dict(file=fn), p)
