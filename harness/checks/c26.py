"""C26: symmetries of the analyses (spec/Symmetry.tla, MCSymmetry, SymmetryTrace)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import morris as morris_sample, ff as ff_sample
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, pawn, rsa, discrepancy, ff, hdmr, enhanced_hdmr

GIVEN = ["rbd_fast", "delta", "pawn", "rsaX", "rsaY", "discWD", "discCD", "discMD", "discL2-star"]
GROUPED = {"sobol", "morris", "pawn", "rsaX", "rsaY", "discWD", "discCD", "discMD", "discL2-star"}
NAMES = [["zeta", "alpha", "mid", "x 1", "10", "9", "B"], ["c", "b", "a", "a1", "A", "_", "é"], ["3", "1", "2", "0", "-1", "1.5", "00"]]


def study(ctx, m, i):
    """a random study for method m: dict(p, X, Y, grp, opt)"""
    rnd, rng = ctx.rnd, ctx.nprng
    D = rnd.choice([2, 3, 3, 4, 5]) if m not in ("hdmr", "enhanced_hdmr") else 3
    grp = list(range(D))
    if m in GROUPED and D >= 3 and i % 2:
        grp = rnd.choice([g for g in rgs(D) if 1 < len(set(g)) < D])
    names = rnd.sample(NAMES[i % 3], D) if i % 4 else [f"x{k}" for k in range(D)]
    lo = np.array([rnd.choice([-4, 0, 1, 8]) for _ in range(D)], float)
    w = np.array([rnd.choice([1, 2, 4, .5]) for _ in range(D)])
    p = dict(num_vars=D, names=names, bounds=[[float(a), float(a + b)] for a, b in zip(lo, w)])
    if len(set(grp)) < D:
        gl = rnd.sample(["gz", "ga", "g m", "1", "0"], len(set(grp)))
        p["groups"] = [gl[g] for g in grp]
    G = len(set(grp))
    co = np.array([rnd.choice([-3, -1, 0.25, 1, 2, 5]) for _ in range(D)])
    def model(X):
        U = (X - lo) / w
        y = U @ co + 2 * U[:, 0] * U[:, -1] + np.sin(5 * U[:, D // 2]) + .125 * U[:, 0] ** 2
        return np.round(1024 * y) / 1024 + 0.0
    opt = {}
    if m == "sobol":
        N = rnd.choice([3, 8, 20]); so = rnd.random() < .6
        X = np.zeros(0); Y = np.round(1024 * rng.normal(size=N * (2 * G + 2 if so else G + 2))) / 1024
        opt = dict(N=N, so=so)
    elif m in ("morris", "morris_scaled"):
        N = rnd.choice([3, 6, 12])
        p_lv = rnd.choice([4, 6])
        X = morris_sample.sample(copy.deepcopy(p), N, num_levels=p_lv, seed=rnd.randrange(10 ** 6)); Y = model(X); opt = dict(N=N, levels=p_lv)
    elif m == "fast":
        M = rnd.choice([2, 4]); N = 4 * M * M + rnd.choice([1, 2, 31, 100]); X = np.zeros(0); opt = dict(M=M, N=N)
        Y = np.round(1024 * rng.normal(size=N * D)) / 1024
    elif m == "dgsm":
        N = rnd.choice([4, 10, 30]); rows = []
        for _ in range(N):
            b = lo + w * rng.integers(16, 48, size=D) / 64
            rows.append(b)
            for k in range(D):
                c = b.copy(); c[k] += w[k] / 128; rows.append(c)
        X = np.array(rows); Y = model(X); opt = dict(N=N)
    elif m == "ff":
        X = ff_sample.sample(copy.deepcopy(p), seed=1); Y = np.round(1024 * rng.normal(size=len(X))) / 1024
    else:
        N = 320 if m in ("hdmr", "enhanced_hdmr") else rnd.choice([40, 97, 150])
        U = np.column_stack([rng.permutation(4095)[:N] + 1 for _ in range(D)]) if m == "rbd_fast" else rng.integers(1, 4096, size=(N, D))
        X = lo + w * (U / 4096)
        Y = model(X)
        opt = dict(S=rnd.choice([2, 3, 5, 8]))
        if m == "rbd_fast": opt = dict(M=rnd.choice([3, 5]))
    return dict(m=m, p=p, X=X, Y=Y, grp=grp, opt=opt, seed=rnd.choice([0, 1, 7, 123]), lv=rnd.choice([.9, .95]))


def analyse(s):
    m, p, X, Y, o = s["m"], copy.deepcopy(s["p"]), s["X"].copy(), s["Y"].copy(), s["opt"]
    k = dict(seed=s["seed"]); c = dict(conf_level=s["lv"], num_resamples=9)
    if m == "sobol": return sobol.analyze(p, Y, calc_second_order=o["so"], **c, **k)
    if m in ("morris", "morris_scaled"): return morris.analyze(p, X, Y, num_levels=o["levels"], scaled=m == "morris_scaled", **c, **k)
    if m == "fast": return fast.analyze(p, Y, M=o["M"], **c, **k)
    if m == "rbd_fast": return rbd_fast.analyze(p, X, Y, M=o["M"], **c, **k)
    if m == "delta": return delta.analyze(p, X, Y, **c, **k)
    if m == "dgsm": return dgsm.analyze(p, X, Y, **c, **k)
    if m == "pawn": return pawn.analyze(p, X, Y, S=o["S"])
    if m in ("rsaX", "rsaY"): return rsa.analyze(p, X, Y, bins=o["S"], target=m[-1])
    if m.startswith("disc"): return discrepancy.analyze(p, X, Y, method=m[4:])
    if m == "ff": return ff.analyze(p, X, Y, second_order=True)
    if m == "hdmr": return hdmr.analyze(p, X, Y, maxorder=2, K=1, R=len(Y), **k)
    return enhanced_hdmr.analyze(p, X, Y, max_order=2, bootstrap=1, **k)


def keys(s, r):
    """{key: (form, 2-d array of one entry per label)} and the labels"""
    m, p = s["m"], s["p"]
    D = p["num_vars"]
    labels = list(dict.fromkeys(p["groups"])) if "groups" in p else list(p["names"])
    n = len(labels)
    out = {}
    def vec(k, a): out[k] = ("vec", np.atleast_2d(np.ma.filled(np.ma.masked_array(np.asarray(a, float)), np.nan)))
    if m == "sobol":
        for k in ("S1", "S1_conf", "ST", "ST_conf"): vec(k, r[k])
        if s["opt"]["so"]:
            for k in ("S2", "S2_conf"): out[k] = ("pair", np.asarray(r[k], float))
        names = labels
    elif m in ("rsaX", "rsaY"):
        f = r.to_df()
        vec("bins", np.array([[float(v) for v in f[l]] for l in labels]).T); names = list(f.columns)
    elif m == "ff":
        vec("ME", r["ME"][:D]); names = list(r["names"][:D])
        S = np.full((D, D), np.nan)
        for nm, v in zip(r["interaction_names"], r["IE"]):
            if nm[0] in names and nm[1] in names:
                i, j = sorted((names.index(nm[0]), names.index(nm[1]))); S[i, j] = v
        out["IE"] = ("sympair", S)
    elif m in ("hdmr", "enhanced_hdmr"):
        K = ["Sa", "Sb", "S", "ST"]
        pick = lambda a: np.asarray(a, float).reshape(len(np.asarray(a)), -1)[:, 0]
        for k in K:
            a = pick(r[k]); vec(k, a[:D])
            if k != "ST":
                M = np.full((D, D), np.nan); c = D
                for i in range(D):
                    for j in range(i + 1, D): M[i, j] = a[c]; c += 1
                out[k + "2"] = ("sympair", M)
        names = list(p["names"])
    else:
        for k in r:
            if k in ("names", "D", "Y", "X"): continue
            a = r[k]
            if isinstance(a, (np.ndarray, np.ma.MaskedArray, list)) and len(a) == n and not isinstance(a[0], str): vec(k, a)
        names = list(r["names"])
    if m == "sobol": names = list(r.to_df()[0].index)
    return out, [str(x) for x in names]


def move(ctx, s, kind):
    """the same study written differently; returns (study, a, perm)"""
    rnd = ctx.rnd
    t = dict(s, p=copy.deepcopy(s["p"]), X=s["X"].copy(), Y=s["Y"].copy())
    D, m, o = s["p"]["num_vars"], s["m"], s["opt"]
    perm, a = list(range(D)), 1.0
    if kind == "perm":
        while perm == list(range(D)):
            rnd.shuffle(perm)
            if rnd.random() < .3 and D > 2: perm = [0] + [x for x in perm if x]
        for k in ("names", "bounds", "groups"):
            if k in t["p"]: t["p"][k] = [s["p"][k][i] for i in perm]
        ng = [s["grp"][i] for i in perm]
        gl = list(dict.fromkeys(s["grp"])); order = [gl.index(g) for g in dict.fromkeys(ng)]
        if m == "sobol":
            G = len(gl); b = 2 * G + 2 if o["so"] else G + 2
            Y = s["Y"].reshape(o["N"], b)
            cols = [0] + [1 + g for g in order] + ([1 + G + g for g in order] if o["so"] else []) + [b - 1]
            t["Y"] = Y[:, cols].ravel()
        elif m == "fast":
            t["Y"] = s["Y"].reshape(D, o["N"])[perm].ravel()
        elif m == "dgsm":
            rows = [b * (D + 1) + q for b in range(o["N"]) for q in [0] + [1 + i for i in perm]]
            t["X"], t["Y"] = s["X"][rows][:, perm], s["Y"][rows]
        elif m == "ff":
            t["X"] = s["X"][:, perm + list(range(D, s["X"].shape[1]))]
        else:
            t["X"] = s["X"][:, perm]
        t["grp"] = ng
    elif kind == "rename":
        pool = ["q", "0", "Z", "aa", "x1", "a b", "-"]
        nn = rnd.sample(pool, D); t["p"]["names"] = nn
        if "groups" in t["p"]:
            mp = dict(zip(dict.fromkeys(s["p"]["groups"]), rnd.sample(["u", "A", "zz", "5"], len(set(s["grp"])))))
            t["p"]["groups"] = [mp[g] for g in s["p"]["groups"]]
    elif kind in ("affine", "negate"):
        a = rnd.choice([2.0, .5, 3.0, 1024.0, 2.0 ** -20, 10.0, 1e6, 2.0 ** -44, 2.0 ** 44]) if m not in ("hdmr",) else rnd.choice([1.0, 2.0])
        if m in ("rsaX", "rsaY", "pawn"): a = rnd.choice([2.0, .5, 1024.0, 2.0 ** -20, 2.0 ** -44, 2.0 ** 44])     # exact images: no ties created or broken
        b = rnd.choice([0, 1, -3, 64.0]) if .5 <= a <= 1e6 else 0
        if kind == "negate": a = -a
        t["Y"] = a * s["Y"] + b
    elif kind == "units":
        if m == "sobol": n = o["N"]
        elif m in ("morris", "morris_scaled", "dgsm"): n = o["N"]
        else: n = len(s["Y"])
        u = list(range(n)); rnd.shuffle(u)
        L = len(s["Y"]) // n
        rows = [i * L + q for i in u for q in range(L)]
        t["Y"] = s["Y"][rows]
        if m != "sobol": t["X"] = s["X"][rows]
    elif kind == "xscale":
        c = np.array([rnd.choice([.25, 2.0, 8.0, 1.0]) for _ in range(D)]); e = np.array([rnd.choice([0, 1, -16.0]) for _ in range(D)])
        if rnd.random() < .5:      # very small and very large units (exact powers of two)
            c = np.array([rnd.choice([2.0 ** -44, 2.0 ** 40, 2.0 ** -20, 1.0]) for _ in range(D)]); c[rnd.randrange(D)] = 2.0 ** -44; e = np.zeros(D)
        t["p"]["bounds"] = [[float(c[k] * b[0] + e[k]), float(c[k] * b[1] + e[k])] for k, b in enumerate(s["p"]["bounds"])]
        t["X"] = s["X"] * (c if m != "ff" else np.r_[c, np.ones(s["X"].shape[1] - D)]) + (e if m != "ff" else np.r_[e, np.zeros(s["X"].shape[1] - D)])
    return t, a, perm


def ids(arrs, rtol, atol):
    """identity classes over several arrays: equal within rounding"""
    vals = np.concatenate([np.ravel(a) for a in arrs]).astype(float)
    fin = np.isfinite(vals)
    out = np.full(len(vals), -1, int)
    out[np.isposinf(vals)] = -2; out[np.isneginf(vals)] = -3
    idx = np.where(fin)[0]; idx = idx[np.argsort(vals[idx], kind="stable")]
    c, prev = 0, None
    for i in idx:
        if prev is not None and vals[i] - prev > atol + rtol * max(abs(vals[i]), abs(prev)): c += 1
        out[i] = c; prev = vals[i]
    res, k = [], 0
    for a in arrs:
        n = np.size(a); res.append(out[k:k + n].reshape(np.shape(a)).tolist()); k += n
    return res


def run(ctx):
    ctx.neighbours(sobol, morris, fast, rbd_fast, delta, dgsm, pawn, rsa, discrepancy, ff)
    big = ctx.thorough
    rnd = ctx.rnd
    inv = "INVARIANTS PawnSame RsaXSame RsaYSame DiscSame RbdSame SobolSame S2Same\n"
    cfg = lambda cl, i, nd: f'SPECIFICATION Spec\nCONSTANTS\n NDATA = {nd}\n CLAIM = "{cl}"\n{i}CHECK_DEADLOCK FALSE\n'
    ctx.model("MCSymmetry", cfg("all", inv, 4), cover=["ListOther", "ReorderRows", "Negate", "Grow"])
    for i in ("RsaYSame", "DiscSame", "S2Same"):
        ok, _ = ctx.model("MCSymmetry", cfg("toomuch", f"INVARIANTS {i}\n", 2), expect_ok=False)
        if ok: raise MachineryError(f"over-strong symmetry {i} not refuted")

    methods = ["sobol", "morris", "morris_scaled", "fast", "dgsm", "ff"] + GIVEN + ["enhanced_hdmr", "hdmr"]
    per = {"delta": 2, "hdmr": 1, "enhanced_hdmr": 1}
    cases, meta = [], []
    for m in methods:
        n = per.get(m, 7) * (4 if big else 1)
        for i in range(n):
            s = study(ctx, m, i)
            desc0 = dict(method=m, problem=s["p"], opt=s["opt"], seed=s["seed"], conf=s["lv"], study=i)
            r = ctx.call(analyse, s)
            if is_err(r):
                ctx.bad("valid-request-fails", desc0, r)
                if ctx.full: return
                continue
            b, lab = keys(s, r)
            for kind in ("perm", "rename", "affine", "negate", "units", "xscale"):
                if kind == "units" and m in ("fast", "ff", "delta", "hdmr", "enhanced_hdmr") or kind == "perm" and m == "ff": continue
                if kind == "xscale" and m in ("sobol", "fast"): continue
                if m == "hdmr" and kind in ("affine", "negate"):
                    if kind == "affine": continue
                for rep in range(2 if kind == "perm" else 1):
                    t, a, perm = move(ctx, s, kind)
                    if m == "hdmr" and kind == "negate": a = -1.0; t["Y"] = -s["Y"]
                    q = ctx.call(analyse, t)
                    desc = dict(desc0, move=kind, a=a, perm=perm, transformed_problem=t["p"])
                    ctx.count(kind)
                    if is_err(q):
                        ctx.bad("valid-request-fails", desc, q)
                        if ctx.full: return
                        continue
                    tt, tl = keys(t, q)
                    if set(tt) != set(b):
                        ctx.bad("different-keys", desc, (sorted(b), sorted(tt))); continue
                    ks = []
                    loose = m in ("hdmr", "enhanced_hdmr") and kind == "perm"
                    for k in sorted(b):
                        form, bv = b[k]; tv = tt[k][1]
                        if tv.shape != bv.shape:
                            ctx.bad("different-shape", desc, (k, bv.shape, tv.shape)); break
                        if form == "pair": bv, tv = np.triu(bv, 1), np.triu(tv, 1)
                        var = {"same": tv, "lin": tv / a, "abs": tv / abs(a), "sq": tv / a ** 2, "sgn": tv / np.sign(a)}
                        scale = np.nanmax(np.abs(bv)) if np.isfinite(bv).any() else 1.0
                        # each variant is classed together with the base values only
                        base_ids, tr = None, {}
                        if loose:    # fitted emulators: order of elimination matters slightly
                            base_ids = None
                        for name, v in var.items():
                            rt, at = (0.0, 1e-8 * max(scale, 1e-12)) if not loose else (0, 0)
                            tr[name] = v
                        if loose:
                            allv = [bv, tv]
                            bi, ti = snap(bv, tv, perm, form, .03)
                            trid = {name: ti for name in var}
                        else:
                            got = ids([bv] + list(var.values()), 1e-9, at)
                            bi, trid = got[0], dict(zip(var, got[1:]))
                        ks.append(dict(key=k, form=form, b=bi, t=trid))
                    exp = [str(x) for x in (list(dict.fromkeys(t["p"]["groups"])) if "groups" in t["p"] else t["p"]["names"])]
                    cases.append(dict(kind=kind, method=m, grp=s["grp"], perm=[x + 1 for x in perm], keys=ks, names=tl, expected=exp))
                    meta.append(dict(desc, base={k: v[1] for k, v in b.items()}, transformed={k: v[1] for k, v in tt.items()}))
    st = []
    c0 = next(c for c in cases if c["method"] == "pawn" and c["kind"] == "perm")
    a = copy.deepcopy(c0); a["keys"] = [dict(k, t={v: x for v, x in k["t"].items()}, b=[[x + 1 for x in r] for r in k["b"]]) for k in a["keys"]]; st.append((a, "perm-values"))
    a = copy.deepcopy(c0); a["names"] = a["names"][::-1]; st.append((a, "labels"))
    for c, d, v in zip(cases, meta, ctx.trace("SymmetryTrace", cases, selftest=st, par=6)):
        if not v["ok"]:
            k = c["keys"][v["at"] - 1]["key"] if v["at"] else "labels"
            ctx.bad(v["clause"], dict(d, key=k), f"{c['method']} {k}: base {d['base'].get(k)!s:.300} transformed {d['transformed'].get(k)!s:.300}")
            if ctx.full: return


def snap(bv, tv, perm, form, tol):
    """identity classes for quantities that are only approximately equal: a transformed entry takes the class of the base
    entry it corresponds to when it lies within tol of it, otherwise a class of its own"""
    n = bv.shape[1]
    bi = np.arange(bv.size).reshape(bv.shape)
    ti = np.full(tv.shape, -5)
    for r in range(tv.shape[0]):
        for c in range(n):
            if form == "vec": rr, cc = r, perm[c]
            else:
                if r >= c: ti[r, c] = bi[r, c]; continue
                rr, cc = sorted((perm[r], perm[c]))
            if abs(bv[rr, cc] - tv[r, c]) <= tol or (np.isnan(bv[rr, cc]) and np.isnan(tv[r, c])): ti[r, c] = bi[rr, cc]
    return bi.tolist(), ti.tolist()
