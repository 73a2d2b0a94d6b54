"""C16: delta moment-independent analysis (spec/Delta.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.analyze import delta
import distlib
ZQ = distlib.ND.inv_cdf(0.975)


def classes(R):
    e = 2.0 / (7.0 + math.tanh((1500.0 - R) / 500.0))
    return int(round(min(math.ceil(R ** e), 48)))


def s1_mirror(c, ys, M):
    """types in X order with counts"""
    y = np.repeat(np.array(ys, float), c); R = len(y)
    if np.ptp(y) == 0: return 0.0
    r = np.arange(1, R + 1); t = 0
    for j in range(M):
        ix = y[(r > R * j / M) & (r <= R * (j + 1) / M)]
        if len(ix): t += len(ix) / R * (ix.mean() - y.mean()) ** 2
    return t / y.var()


def kde(y, grid):
    n = len(y); h = (n * .75) ** (-.2) * y.std(ddof=1)
    return np.exp(-.5 * ((grid[:, None] - y[None]) / h) ** 2).sum(1) / (n * h * math.sqrt(2 * math.pi))


def d_hat(c, ys, M, grid):
    """Plischke et al. 2013, eqn 26, for a composition of row types in X order"""
    y = np.repeat(np.array(ys, float), c); R = len(y); r = np.arange(1, R + 1)
    f = kde(y, grid); t = 0.0
    for j in range(M):
        ix = y[(r > R * j / M) & (r <= R * (j + 1) / M)]
        if len(ix) == 0 or np.ptp(ix) == 0: continue
        a = np.abs(f - kde(ix, grid))
        t += len(ix) / (2 * R) * float(((a[1:] + a[:-1]) / 2 * np.diff(grid)).sum())
    return t


def run(ctx):
    ctx.neighbours(delta)
    big = ctx.thorough
    ctx.model("MCDelta", f"SPECIFICATION Spec\nCONSTANTS\n RMAX = {6 if big else 5}\n TYPES = 3\n MMAX = 3\n YMAX = 2\nINVARIANTS Unit EqualCount Affine AllCompositions Plans\nCHECK_DEADLOCK FALSE\n", cover=["Draw", "Stop"], workers=6)
    rnd, g = ctx.rnd, ctx.nprng

    # ---- first-order term: member of the exact set of resampled values
    cases, meta = [], []
    for i in range(44 if big else 20):
        T = rnd.choice([2, 3, 3]); R = rnd.choice([3, 4, 5, 8, 17, 18, 20, 22, 24, 30])
        ys = [rnd.randint(0, 2) for _ in range(T)]
        if len(set(ys)) == 1: ys[0] = 1 - min(ys[0], 1)
        cases.append(dict(kind="s1", ys=ys, R=R, M=classes(R)))
    res = ctx.oracle("DeltaOracle", cases)
    full_size, drawn = 0, 0
    for i, (c, e) in enumerate(zip(cases, res)):
        T, R, M, ys = len(c["ys"]), c["R"], c["M"], c["ys"]
        vals = np.array(sorted(rat(v) for v in e["vals"]))
        def comps(n, k): return [[n]] if k == 1 else [[a] + r for a in range(n + 1) for r in comps(n - a, k - 1)]
        mv = np.array(sorted({round(s1_mirror(k, ys, M), 12) for k in comps(R, T)}))
        if len(vals) and max(np.abs(mv[:, None] - vals[None]).min(1)) > 1e-9: raise MachineryError("mirror disagrees with the specification")
        D = rnd.randint(1, 3); which = rnd.randrange(D)
        N = R + rnd.choice([0, 0, 3])
        base = list(range(T)) + [rnd.randrange(T) for _ in range(N - T)] if N >= T else [0, 1, 2][:N]
        rnd.shuffle(base)
        xv = sorted(rnd.sample(range(-20, 40), T))
        mono = rnd.choice([lambda v: v, lambda v: v, lambda v: 1e6 + 1e-3 * v, lambda v: v * 1e-9, lambda v: -3e4 + v ** 3 * 1e-7])
        X = g.random((N, D)) * 5; X[:, which] = [mono(xv[t]) for t in base]
        sc = rnd.choice([1.0, -.5, 100.0]); Y = np.array([ys[t] for t in base], float) * sc + rnd.choice([0, 7.0])
        p = distlib.problem(rnd, D)
        desc = dict(problem=p, X=X, Y=Y, y_resamples=R)
        seen = set()
        for s in range(12 if big else 8):
            Si = ctx.call(delta.analyze, ProblemSpec(copy.deepcopy(p)) if s == 1 else p, X, Y, method="sobol", num_resamples=2, seed=s if s else None, **({} if R == N else dict(y_resamples=R)))
            ctx.count("S1"); ctx.traces += 1
            if is_err(Si): ctx.bad("valid-request-fails", desc, Si); break
            if sorted(k for k in Si if k != "notes") != ["S1", "S1_conf", "names"] or len(Si["S1"]) != D or list(Si["names"]) != list(p["names"]):
                ctx.bad("entries", desc, dict(Si)); break
            v = float(Si["S1"][which]); seen.add(round(v, 9))
            if np.abs(vals - v).min() > 1e-9:
                ctx.bad("S1-not-a-resampled-value", dict(desc, parameter=which, seed=s), f"{v} not in {vals.tolist()[:20]}"); break
            if not all(-1e-12 <= a <= 1 + 1e-12 for a in Si["S1"]): ctx.bad("S1-outside-unit", desc, Si["S1"]); break
        if R == N and len(vals) > 3: full_size += 1; drawn += len(seen) > 1
        if ctx.full: return
    # resampling happens whether or not the resample has the size of the data
    if full_size >= 3 and not drawn: ctx.bad("S1-not-resampled", dict(samples=full_size), "eight seeds give one and the same value for every sample")
    # identical rows apart from one type swap: more classes (M up to 7), S1 exact through the two-type set
    for R in (81, 100, 260, 640, 1300, 1800, 2300, 3100) if big else (81, 300, 1800, 2300):
        for ys in ([0, 1], [3, -1]):
            N = R; nb = rnd.randint(R // 4, 3 * R // 4)
            x = np.array([2.0] * nb + [-1.0] * (N - nb)); perm = g.permutation(N); x = x[perm]
            Y = np.where(x > 0, ys[1], ys[0]).astype(float)
            p = dict(num_vars=1, names=["a"], bounds=[[0, 1]])
            Si = ctx.call(delta.analyze, p, x[:, None], Y, method="sobol", num_resamples=2, seed=R)
            ctx.count("S1-large")
            if is_err(Si): ctx.bad("valid-request-fails", dict(R=R), Si); continue
            vals = np.array([s1_mirror([k, R - k], ys, classes(R)) for k in range(R + 1)])
            if np.abs(vals - float(Si["S1"][0])).min() > 1e-9: ctx.bad("S1-not-a-resampled-value", dict(X=x, Y=Y, seed=R), Si["S1"])
    # a bin specification which cannot be used stands for the ten equal-width bins of the default
    X = g.random((90, 2)) * 4 + 1; Y = X[:, 0] ** 2 + g.random(90); p = dict(num_vars=2, names=["a", "b"], bounds=[[1, 5]] * 2)
    go = lambda s: ctx.call(delta.analyze, p, X, Y, num_resamples=3, seed=5, bins_specs=s)
    ref = go({"a": 10, "b": 10})
    for s in (None, [-5.0, 2.0], [2.0, 99.0], [3.0, 2.0], [2.0, 2.0, 3.0], ["a", "b"], "7", 2.5, (2, 3), {2: 3}, np.array([4.0, 1.5]), "omitted"):
        Si = go({} if s == "omitted" else {"a": s}) if not isinstance(s, np.ndarray) else go({"a": s}); ctx.count("fallback")
        if is_err(ref) or is_err(Si): ctx.bad("valid-request-fails", dict(bins=repr(s)), Si); continue
        if not same({k: v for k, v in Si.items() if k != "notes"}, {k: v for k, v in ref.items() if k != "notes"}): ctx.bad("fallback-bins", dict(bins=repr(s)), f"{dict(Si)} instead of {dict(ref)}")
        if (s is None or isinstance(s, str) and s == "omitted") != (not Si["notes"][0] or "Input" not in Si["notes"][0] and "Custom" not in Si["notes"][0]): ctx.bad("note", dict(bins=repr(s)), Si["notes"])
    # ---- delta stages: values fixed by the plan, missing values and notes where due
    cases, meta, PAR = [], [], []
    for i in range(64 if big else 30):
        D = rnd.randint(1, 4)
        N = rnd.choice([40, 60, 100, 120, 150, 200]); par = []
        shape = rnd.random()
        rows = list(range(N))
        X = np.zeros((N, D)); specs = {}; met = rnd.choice(["all", "all", "delta"])
        ykind = [rnd.uniform(-3, 3) for _ in range(60)]
        for j in range(D):
            kind = rnd.choice(["types", "types", "types", "steps", "steps", "constant", "skewed", "continuous"])
            if kind == "constant": xs, cnt = [rnd.choice([0, 5, -3])], [N]
            elif kind == "steps":
                xs = [rnd.choice([-7, 0]), 10, 13, 15, 17, 20] if rnd.random() < .7 else [0, 5, 25]
                cnt = [N // len(xs)] * len(xs); cnt[0] += N - sum(cnt)
            elif kind == "skewed":
                if rnd.random() < .4: xs = [-30, 1, 70]; cnt = [N - 6, 4, 2]
                else:    # a zero value in bulk, few on one side
                    few, mid = rnd.choice([2, 4, 9, 10, 12]), N // 3
                    xs, cnt = rnd.choice([([-30, 0, 5], [N - mid - few, mid, few]), ([0, 3, 17], [few, mid, N - mid - few]), ([-4, 0, 17], [few, mid, N - mid - few])])
            elif kind == "types":
                T = rnd.randint(2, 6); xs = sorted(rnd.sample([v for v in range(-43, 57) if v % 10 in (3, 7)], T)); cnt = [N // T] * T; cnt[-1] += N - sum(cnt)
            else: xs = sorted(rnd.sample(range(-5 * N, 5 * N), N)); cnt = [1] * N
            par.append((xs, cnt)); col = np.repeat(xs, cnt); X[:, j] = col
        lead = rnd.randrange(D)
        # rows follow the lead parameter; the others are shuffled
        for j in range(D):
            if j != lead: X[:, j] = X[g.permutation(N), j]
        T = len(par[lead][0])
        if T <= 8 and T > 1:
            ys = [round(rnd.uniform(-3, 3), 3) for _ in range(T)]; Y = np.repeat(ys, par[lead][1])
        else: ys = None; Y = np.sin(X[:, lead] / 20) + g.random(N)
        if np.ptp(Y) == 0: continue
        pm = g.permutation(N); X, Y = X[pm], Y[pm]
        p = distlib.problem(rnd, D)
        jobs = []
        for j, (xs, cnt) in enumerate(par):
            r = rnd.random(); note = False
            if r < .35 and len(xs) > 1: nb = rnd.choice([2, 3, 4, 5, 1]); sp = dict(kind="eq", nb=nb, e=[]); specs[p["names"][j]] = nb
            elif r < .75 and 1 < len(xs) <= 8:
                e = sorted({(a + b) // 2 for a, b in zip(xs, xs[1:]) if (a + b) // 2 > xs[0]} - set(xs)) or [xs[0] + 1]
                if e[-1] > xs[-1]: e = e[:-1] or [xs[-1]]
                if rnd.random() < .3: e = sorted(rnd.sample(e, rnd.randint(1, len(e))))
                specs[p["names"][j]] = e if rnd.random() < .5 else np.array(e); sp = dict(kind="edges", nb=0, e=e)
            elif r < .85 and len(xs) > 1:
                specs[p["names"][j]] = rnd.choice([[xs[0] - 5, xs[-1]], [xs[-1], xs[0]], "7", ["a", "b"], [xs[-1] + 3]]); sp = dict(kind="eq", nb=10, e=[]); note = True
            else: sp = dict(kind="eq", nb=10, e=[])
            # equal-width edges must not be hit by data (float edges)
            if sp["kind"] == "eq" and any((x - xs[0]) * sp["nb"] % (xs[-1] - xs[0]) == 0 for x in xs[1:-1]):
                sp = None
            pos = [x for x in xs if x > 0]
            if pos and pos[-1] > pos[0] and any((x - pos[0]) * 5 % (pos[-1] - pos[0]) == 0 for x in pos[1:-1]): sp = None
            if sp is None: jobs.append(None); continue
            if len(xs) > 1 and sp["kind"] == "edges" and not (xs[0] <= min(sp["e"]) and max(sp["e"]) <= xs[-1]): note = True; sp = dict(kind="eq", nb=10, e=[])
            jobs.append(len(cases)); cases.append(dict(kind="stage", xs=list(map(int, xs)), cnt=cnt, spec=sp, R=N, method=met)); meta.append((i, note))
        PAR.append((par, jobs, lead, ys, X, Y, p, specs, met, N))
    res = ctx.oracle("DeltaOracle", cases)
    for par, jobs, lead, ys, X, Y, p, specs, met, N in PAR:
        desc = dict(problem=p, N=N, method=met, bins_specs={k: jsonable(v) for k, v in specs.items()}, types=[(xs, cnt) if len(xs) < 9 else "continuous" for xs, cnt in par])
        Si = ctx.call(delta.analyze, p, X, Y, num_resamples=3, seed=rnd.choice([None, 4]), method=met, bins_specs=specs)
        ctx.count("stages"); ctx.traces += 1
        D = len(par)
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); continue
        dk = ["delta_balanced", "delta_balanced_conf", "delta_raw", "delta_raw_conf", "delta_step", "delta_step_conf"]
        keys = dk + (["S1", "S1_conf"] if met == "all" else [])
        if sorted(k for k in Si if k not in ("names", "notes")) != sorted(keys) or any(len(Si[k]) != D for k in keys + ["notes", "names"]) or list(Si["names"]) != list(p["names"]):
            ctx.bad("entries", desc, dict(Si)); continue
        grid = np.linspace(Y.min(), Y.max(), 100); M = classes(N)
        for j in range(D):
            if jobs[j] is None: continue
            o = res[jobs[j]]; out = o["out"]; note = meta[jobs[j]][1]
            for key, on in (("delta_balanced", out["bal"]), ("delta_raw", out["raw"]), ("delta_step", out["step"]), ("S1", out["s1"])):
                if key not in Si: continue
                v = float(Si[key][j])
                if math.isnan(v) == on: ctx.bad("missing-value", dict(desc, parameter=j), f"{key}={v}, expected {'a number' if on else 'missing'}; note {Si['notes'][j]!r}"); break
                if on and not -1 - 1e-9 <= v <= 2 + 1e-9: ctx.bad("range", dict(desc, parameter=j), f"{key}={v}")
            due = out["abort"] or out["skip"] or note or (out["bal"] and abs(Si["delta_balanced"][j] - Si["delta_raw"][j]) > 0.1)
            if bool(Si["notes"][j]) != bool(due): ctx.bad("note", dict(desc, parameter=j), f"note {Si['notes'][j]!r}, due={due}")
            if j == lead and ys is not None:
                for key, comp, on in (("delta_balanced", o["bal"], out["bal"]), ("delta_step", o["step"], out["step"])):
                    if on and comp:
                        ctx.count("fixed-delta")
                        want = d_hat(comp, ys, M, grid); got = float(Si[key][j])
                        if not close(got, want, 1e-8, 1e-9): ctx.bad(key, dict(desc, parameter=j), f"expected {want}, got {got}"); break
                        if not -1e-9 <= got <= 1 + 1e-9: ctx.bad("delta-outside-unit", desc, got)
                        if not close(Si[key + "_conf"][j], 0, 0, 1e-9): ctx.bad(key + "_conf", dict(desc, parameter=j), Si[key + "_conf"][j])
        if ctx.full: return
    if ctx.counters.get("fixed-delta", 0) < 3: raise MachineryError("too few deterministic delta plans")
    # ---- raw delta: member of the set of bias-reduced resampled values
    for i in range(12 if big else 5):
        N = rnd.randint(22, 30); nb = rnd.randint(10, N - 10)
        x = np.array([1.0] * nb + [3.0] * (N - nb))[g.permutation(N)]; y = np.where(x > 2, 1.5, 0.25)
        p = dict(num_vars=2, names=["a", "b"], bounds=[[0, 1]] * 2); X = np.column_stack([g.random(N), x])
        Si = ctx.call(delta.analyze, p, X, y, num_resamples=2, seed=i, bins_specs={"b": [2.0], "a": [.5]})
        if is_err(Si): ctx.bad("valid-request-fails", dict(X=X, Y=y), Si); continue
        ctx.count("raw")
        grid = np.linspace(y.min(), y.max(), 100)
        v = np.array([d_hat([k, N - k], [0.25, 1.5], classes(N), grid) for k in range(1, N)])
        got, cf = float(Si["delta_raw"][1]), float(Si["delta_raw_conf"][1])
        ok = False
        for b in v:
            for c in v:
                if close(abs(b - c) / math.sqrt(2) * ZQ, cf, 1e-8, 1e-9) and np.abs(2 * v - (b + c) / 2 - got).min() < 1e-8: ok = True
        if not ok: ctx.bad("delta_raw", dict(X=X, Y=y, seed=i), (got, cf))
    # ---- only ranks of the parameter matter (same seed, bins transformed alongside)
    for i in range(10 if big else 4):
        N = 300; D = 3; X = g.random((N, D)) * 4 + .5; X[:, 1] -= 2; Y = np.sin(X[:, 0]) + X[:, 1] + g.random(N) * .3
        p = distlib.problem(rnd, D); e = [[1.5, 2.5, 3.5], [-.5, 1.0], [2.0]]
        f = [lambda v: np.exp(v), lambda v: v ** 3, lambda v: 5 * v - 40 * 0]
        X2 = np.column_stack([f[j](X[:, j]) for j in range(D)])
        A = ctx.call(delta.analyze, p, X, Y, num_resamples=4, seed=i, bins_specs=dict(zip(p["names"], e)))
        B = ctx.call(delta.analyze, p, X2, Y, num_resamples=4, seed=i, bins_specs={n: [float(f[j](np.float64(v))) for v in e[j]] for j, n in enumerate(p["names"])})
        ctx.count("rank-invariance")
        if is_err(A) or is_err(B): ctx.bad("valid-request-fails", dict(seed=i), (A, B)); continue
        for key in ("S1", "S1_conf", "delta_raw", "delta_raw_conf", "delta_balanced"):
            # the step stage bins by value and consumes draws, so compare the first parameter throughout and others for first stages
            if not np.allclose([A[key][0]], [B[key][0]], rtol=1e-9) and key in ("delta_raw", "delta_balanced"):
                ctx.bad("rank-invariance", dict(seed=i, key=key), (A[key], B[key]))
        C, Dd = (ctx.call(delta.analyze, p, Z, Y, num_resamples=4, seed=i, method="sobol") for Z in (X, X2))
        if is_err(C) or is_err(Dd) or not np.allclose(C["S1"], Dd["S1"], rtol=1e-9) or not np.allclose(C["S1_conf"], Dd["S1_conf"], rtol=1e-9): ctx.bad("rank-invariance-S1", dict(seed=i), (C, Dd))
    # ---- request domain
    p = dict(num_vars=2, names=["a", "b"], bounds=[[0, 1]] * 2); X = g.random((120, 2)); Y = X[:, 0] + g.random(120)
    for kw in (dict(method="S1"), dict(conf_level=1.0), dict(conf_level=0), dict(y_resamples=121)):
        ctx.count("domain")
        Si = ctx.call(delta.analyze, p, X, Y, num_resamples=2, **kw)
        if not is_err(Si): ctx.bad("domain", kw, Si)
    if not is_err(ctx.call(delta.analyze, p, X[:-1], Y, num_resamples=2)): ctx.bad("domain", dict(rows="differ"))
    for sfx in ("_raw", "_balanced", "_step", "_conf"):
        if not is_err(ctx.call(delta.analyze, dict(p, names=["a", "b" + sfx]), X, Y, num_resamples=2), "ValueError"): ctx.bad("domain", dict(suffix=sfx))

