"""C20: calls do not alter the caller's data (spec/Aliasing.tla)."""
import copy, hashlib, pickle
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import sobol as ssob, latin, morris as smor, fast_sampler, ff as sff, finite_diff, saltelli
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, ff, pawn, rsa, discrepancy, hdmr, enhanced_hdmr
import distlib, randlib


def content(x):
    """a hash of everything reachable from x"""
    h = hashlib.sha1()
    def go(v):
        if isinstance(v, np.ndarray) and v.dtype != object: h.update(b"A" + str((v.shape, v.dtype.str)).encode() + v.tobytes())
        elif isinstance(v, (list, tuple, np.ndarray)):
            h.update(b"[" + str(len(v)).encode())
            for y in v: go(y)
        elif isinstance(v, dict):
            for k in sorted(v): h.update(repr(k).encode()); go(v[k])
        else: h.update(repr(v).encode())
    go(x); return h.hexdigest()


SAMPLERS = {"sobol": lambda p: ssob.sample(p, 4, seed=1), "saltelli": lambda p: saltelli.sample(p, 4, calc_second_order=False), "latin": lambda p: latin.sample(p, 6, seed=1), "morris": lambda p: smor.sample(p, 5, seed=1),
            "morris-opt": lambda p: smor.sample(p, 6, optimal_trajectories=3, seed=1), "fast": lambda p: fast_sampler.sample(p, 65, seed=1), "finite_diff": lambda p: finite_diff.sample(p, 3, seed=1), "ff": lambda p: sff.sample(p, seed=1)}
# analysis -> (kind of data it takes, call)
AN = {"sobol": ("sal", lambda p, X, Y: sobol.analyze(p, Y, seed=1, num_resamples=5, keep_resamples=True)), "sobol-par": ("sal", lambda p, X, Y: sobol.analyze(p, Y, seed=1, num_resamples=5, parallel=True, n_processors=2)),
      "morris": ("mor", lambda p, X, Y: morris.analyze(p, X, Y, seed=1, num_resamples=10)), "morris-scaled": ("mor", lambda p, X, Y: morris.analyze(p, X, Y, scaled=True, seed=1, num_resamples=10)),
      "fast": ("fast", lambda p, X, Y: fast.analyze(p, Y, seed=1, num_resamples=5)), "rbd_fast": ("giv", lambda p, X, Y: rbd_fast.analyze(p, X, Y, M=3, seed=1, num_resamples=5)),
      "delta": ("giv", lambda p, X, Y: delta.analyze(p, X, Y, seed=1, num_resamples=3)), "dgsm": ("fd", lambda p, X, Y: dgsm.analyze(p, X, Y, seed=1, num_resamples=5)),
      "pawn": ("giv", lambda p, X, Y: pawn.analyze(p, X, Y, S=4, seed=1)), "rsa": ("giv", lambda p, X, Y: rsa.analyze(p, X, Y, bins=4)),
      "discrepancy": ("giv", lambda p, X, Y: discrepancy.analyze(p, X, Y, method="CD")), "ff": ("ff", lambda p, X, Y: ff.analyze(p, X, Y, second_order=True)),
      "rsa-many": ("giv", lambda p, X, Y: rsa.analyze(p, X, Y, bins=55)), "rsa-input": ("giv", lambda p, X, Y: rsa.analyze(p, X, Y, bins=7, target="X")), "pawn-many": ("giv", lambda p, X, Y: pawn.analyze(p, X, Y, S=45, seed=1)), "delta-some": ("giv", lambda p, X, Y: delta.analyze(p, X, Y, seed=1, num_resamples=3, y_resamples=33, method="delta")),
      "discrepancy-WD": ("giv", lambda p, X, Y: discrepancy.analyze(p, X, Y)), "sobol-first": ("sal1", lambda p, X, Y: sobol.analyze(p, Y, calc_second_order=False, seed=1, num_resamples=300)), "morris-many": ("mor", lambda p, X, Y: morris.analyze(p, X, Y, num_levels=4, seed=1, num_resamples=700)),
      "hdmr-more": ("hd", lambda p, X, Y: hdmr.analyze(p, X, Y, seed=1, K=2, R=300, maxorder=2)), "enhanced_hdmr-one": ("hd", lambda p, X, Y: enhanced_hdmr.analyze(p, X, Y, seed=1, max_order=1, poly_order=2, bootstrap=1, extended_base=False)),
      "hdmr": ("hd", lambda p, X, Y: hdmr.analyze(p, X, Y, seed=1)), "enhanced_hdmr": ("hd", lambda p, X, Y: enhanced_hdmr.analyze(p, X, Y, seed=1, max_order=2, poly_order=2, bootstrap=2))}


def dress(A, form):
    """the same values in another memory form; returns (array to pass, object to watch)"""
    if form == "ro": B = A.copy(); B.setflags(write=False); return B, B
    if form == "F": B = np.asfortranarray(A) if A.ndim > 1 else A.copy(); return B, B
    if form == "view": W = np.repeat(np.repeat(A, 2, 0), 2, 1) if A.ndim > 1 else np.repeat(A, 2); return (W[::2, ::2] if A.ndim > 1 else W[::2]), W
    if form == "sub":
        W = np.full(tuple(s + 2 for s in A.shape), 7.5); s = tuple(slice(1, -1) for _ in A.shape); W[s] = A; return W[s], W
    B = A.copy(); return B, B


def plain(r): return {k: v for k, v in r.items() if k not in ("Em", "RT", "idx", "X", "Y", "hdmr")}


def run(ctx):
    L = 6 if ctx.thorough else 5
    cfg = lambda v: f"SPECIFICATION Spec\nCONSTANTS\n L = {L}\n VARIANT = \"{v}\"\nINVARIANTS UserDataUntouched\nCHECK_DEADLOCK FALSE\n"
    ctx.model("MCAliasing", cfg("design"), cover=["Sample", "MorrisSample", "Pad", "Analyze", "NameTerms"])
    for v in ("extend-in-place", "scale-in-place", "terms-in-names"):
        ok, out = ctx.model("MCAliasing", cfg(v), expect_ok=False, workers=1)
        if ok or "UserDataUntouched is violated" not in out: raise MachineryError("wrong design not refuted: " + v + out[-800:])
        ctx.count("refuted-wrong-design")
    rnd, g, big = ctx.rnd, ctx.nprng, ctx.thorough
    ids = {}
    num = lambda c: ids.setdefault(c, len(ids) + 1)
    cases, meta = [], []
    DUM = content(None)
    for run_no in range(110 if big else 44):
        D = [4, 3, 4, 2, 5][run_no % 5]; grouped = run_no % 3 == 1; kind = run_no % 4
        names = [f"x{D - j}" for j in range(D)] if run_no % 2 else ["b", "a", "d", "c", "e"][:D]
        dist = kind == 2
        bounds = [distlib.bounds("unif", rnd) for _ in range(D)]
        dists = ["unif"] * D if dist else None
        if dist and run_no % 8 == 6 and not grouped: dists[0] = "norm"; bounds[0] = [0.0, 1.0]
        groups = (["g2", "g1", "g2", "g3", "g1"][:D] if D > 2 else ["k", "m"]) if grouped else None
        if kind == 3 and not dist: bounds = np.array(bounds, float)
        p = dict(num_vars=D, names=names, bounds=bounds)
        if groups is not None: p["groups"] = groups
        elif run_no % 7 == 0: p["groups"] = None
        if dists is not None: p["dists"] = dists
        q = dict(p)                      # second definition built from the same lists
        lists = [v for v in (names, bounds, groups, dists) if v is not None]
        pristine = copy.deepcopy(p)
        # data in the ranges of the problem
        def data(kind):
            pp = copy.deepcopy(pristine); U = g.random((60, D))
            G = len(set(groups)) if groups else D
            if kind == "sal1": return np.zeros((1, D)), g.normal(size=8 * (G + 2))
            if kind == "sal": X = np.zeros((1, D)); Y = g.normal(size=4 * (2 * G + 2)); return X, Y
            if kind == "fast": return np.zeros((1, D)), g.normal(size=70 * D)
            if kind == "mor": X = smor.sample(pp, 5, seed=3)
            elif kind == "fd": X = finite_diff.sample(pp, 4, seed=3)
            elif kind == "ff": X = sff.sample(pp, seed=3)
            else:
                U = g.random((320 if kind == "hd" else 60, D)); X = np.array(distlib.scale(pristine, U))
                if run_no % 6 == 0 and kind == "giv": X = np.round(X * 4) / 4 + 0 * X; lo = np.array([b[0] for b in pristine["bounds"]]); X = np.maximum(X, lo); X = np.minimum(X, np.array([b[1] for b in pristine["bounds"]])) if not dist or dists[0] == "unif" else X
            return X, np.sin(X).sum(1) + X[:, 0] * X[:, -1] + .01 * g.normal(size=len(X))
        cache, objs = {}, {}
        def fields(d): return {k: (0 if d.get(k) is None else num(content(list(d[k]) if not isinstance(d[k], np.ndarray) else d[k]))) for k in ("names", "bounds", "groups", "dists")}
        steps, hist = [], []
        spec = ProblemSpec(dict(p)) if run_no % 5 == 4 else None
        for t in range(rnd.randint(6, 11)):
            name = rnd.choice(list(AN) * 2 + list(SAMPLERS) * 2 + ["ff"])
            smp = rnd.random() < .45 and name in SAMPLERS or name not in AN
            if smp and name == "ff" or not smp and name == "ff":
                if spec is not None or (not smp and D not in (2, 4)): continue
            if not smp and name in ("sobol-par",) and rnd.random() < .7: continue
            if dist and dists[0] == "norm" and (not smp and name in ("discrepancy", "discrepancy-WD", "morris-scaled", "dgsm") or smp and name == "finite_diff"): continue
            if not smp and name in ("morris", "morris-scaled", "morris-many") and dist and dists[0] == "norm": continue
            target = dict(p) if smp and name == "ff" else (spec if spec is not None else p)
            other = p if target is not p else q
            X = Y = Xw = Yw = None
            if not smp:
                kd, f = AN[name]
                if kd not in objs:
                    x, y = data(kd); objs[kd] = (x, y, *dress(x, rnd.choice(["C", "F", "view", "sub", "ro"])), *dress(y, rnd.choice(["C", "view", "sub", "ro"])))
                x, y, X, Xw, Y, Yw = objs[kd]
            before = {k: v for k, v in target.items()}
            b, ob = fields(target), fields(other)
            l0 = [num(content(v)) for v in lists]; x0, y0 = num(content(Xw)), num(content(Yw))
            key = (smp, name)
            if key not in cache:
                fp = copy.deepcopy(pristine)
                cache[key] = ctx.call(SAMPLERS[name], fp) if smp else ctx.call(f, fp, x.copy(), y.copy())
            r = ctx.call(SAMPLERS[name], target) if smp else ctx.call(f, target, X, Y)
            op = (name + ".sample") if smp else name
            extra = [k for k in target if k not in before and k not in ("groups",)] + [k for k in before if k not in target]
            if spec is not None and name in ("hdmr", "hdmr-more") and not smp and not is_err(r): extra = [k for k in extra if k not in r and k != "emulate"]   # documented: hdmr publishes its results on a ProblemSpec
            if op != "ff.sample" and target.get("num_vars") != before.get("num_vars"): extra.append("num_vars")
            want = cache[key]
            if is_err(want): ctx.bad("valid-call-fails", dict(call=op, problem=pristine), want); break
            okres = (not is_err(r)) and (same(want, r) if smp else same(plain(want), plain(r), 1e-6, 1e-8))
            if op == "ff.sample" and not is_err(r):    # the padding itself: prefix kept
                if list(target["names"])[:D] != names or target["num_vars"] not in (2, 4, 8): extra.append("padding")
            steps.append(dict(op=op, raised=is_err(r), x0=x0, x1=num(content(Xw)), y0=y0, y1=num(content(Yw)), l0=l0, l1=[num(content(v)) for v in lists], b=b, a=fields(target), ob=ob, oa=fields(other), extra=extra, same=okres))
            hist.append([op, str(r) if is_err(r) else ""]); ctx.count("sampler" if smp else "analysis")
            if target is p and p.get("groups") is not None and groups is None: q.setdefault("groups", None)
        if steps: cases.append(dict(steps=steps)); meta.append(dict(problem=pristine, calls=hist, spec=spec is not None))
        if ctx.full: return
    st = []
    for f, v, cl in (("x1", 0, "input-matrix-changed"), ("y1", 0, "output-vector-changed"), ("same", False, "result-depends-on-earlier-calls"), ("extra", ["zz"], "keys-added")):
        d = copy.deepcopy(cases[0]); d["steps"][-1][f] = v; st.append((d, cl))
    d = copy.deepcopy(cases[1]); d["steps"][0]["l1"] = [0] + d["steps"][0]["l1"][1:]; st.append((d, "shared-list-changed"))
    for (c, m), v in zip(zip(cases, meta), ctx.trace("AliasTrace", cases, selftest=st)):
        if not v["ok"]: ctx.bad(v["clause"], dict(m, calls=m["calls"][:v["at"]], step=c["steps"][v["at"] - 1]), f"call {m['calls'][v['at'] - 1]}")
        if ctx.full: return
