"""C23: tabular results (spec/Frames.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import sobol as ssob, latin, morris as smor, fast_sampler, ff as sff, finite_diff
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, ff, pawn, rsa, discrepancy, hdmr, enhanced_hdmr
import distlib

KINDS = ["sobol", "sobol", "sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "ff", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"]
MAIN = dict(sobol=["ST", "S1", "S2"], morris=["mu_star"], fast=["ST"], rbd_fast=["S1"], delta=["delta_balanced"], dgsm=["vi"], ff=["ME"], pawn=["median"], rsa=None, discrepancy=None, hdmr=["S"], enhanced_hdmr=["S"])
GROUPED = {"sobol", "morris", "pawn", "rsa", "discrepancy"}


def words(rnd, n):
    pool = ["x10", "x2", "x1", "b", "a", "Zeta", "alpha", "k_s", "p q", "é", "C", "0", "a b", "w", "ST", "S1", "sigma", "y"]
    if rnd.random() < .25: pool = ["the hydraulic conductivity of layer " + w for w in pool]
    return rnd.sample(pool, n)


def run(ctx):
    ctx.neighbours(ssob, latin, smor, fast_sampler, sff, finite_diff, sobol, morris, fast, rbd_fast, delta, dgsm, ff, pawn, rsa, discrepancy)
    big = ctx.thorough
    cfg = lambda v, d: f"SPECIFICATION Spec\nCONSTANTS\n D = {d}\n VARIANT = \"{v}\"\nINVARIANTS RightValue NoDuplicate Complete LabelsUnique Listed\nPROPERTY Finished\nCHECK_DEADLOCK FALSE\n"
    for d in range(2, 7 if big else 6): ctx.model("MCFrames", cfg("design", d), cover=["AddRow"])
    for v in ("sorted-labels", "column-order"):
        ok, out = ctx.model("MCFrames", cfg(v, 3 if v == "sorted-labels" else 4), expect_ok=False, workers=1)
        if ok or "Invariant RightValue is violated" not in out: raise MachineryError("wrong design not refuted: " + v + out[-600:])
        ctx.count("refuted-wrong-design")
    rnd, g = ctx.rnd, ctx.nprng
    cases, meta = [], []

    def frames_of(fr, kind):
        if fr is None: return []
        if kind == "ff" and isinstance(fr, tuple): fr = [f for f in fr if f is not None]
        return list(fr) if isinstance(fr, (list, tuple)) else [fr]

    def record(Si, frs, kind, p, order, active, desc):
        ids = {}
        def num(v):
            if isinstance(v, (str, list, tuple)) or v is None: return ids.setdefault(str(v), len(ids) + 1)
            if v is np.ma.masked: v = float("nan")
            v = float(v); k = "nan" if math.isnan(v) else repr(v)
            return ids.setdefault(k, len(ids) + 1)
        def val(v):
            if isinstance(v, (str,)) or v is None: return num(v)
            if isinstance(v, np.ma.MaskedArray): return [num(x) for x in v]
            if isinstance(v, (list, tuple, np.ndarray)): return [val(x) for x in v]
            try: return num(v)
            except Exception: return num(str(v))
        groups = list(p["groups"]) if p.get("groups") else []
        names = [str(n) for n in p["names"]]
        res = {k: val(v) for k, v in dict.items(Si) if k not in ("names", "Em", "RT", "idx", "X", "Y", "hdmr", "interaction_names")}
        out = []
        frs = frames_of(frs, kind)
        for q, f in enumerate(frs):
            rows = []
            for lab in f.index:
                if isinstance(lab, tuple): rows.append([str(x) for x in lab])
                elif kind in ("hdmr", "enhanced_hdmr"): rows.append(str(lab).split("/"))
                elif kind == "rsa": rows.append([str(num(lab))])
                else: rows.append([str(lab)])
            main = MAIN[kind]; scores = []
            if active:
                if kind == "rsa": sc = np.nanmax(f.values.astype(float), 0)
                elif main and q < len(main) and main[q] in f: sc = np.abs(np.array(f[main[q]], float)) if kind != "morris" else np.array(np.ma.filled(np.ma.asarray(f[main[q]]), np.nan), float)
                else: sc = None
                single = len(active) == 1
                pairframe = bool(rows) and len(rows[0]) == 2 and kind != "hdmr"
                if kind in ("hdmr", "enhanced_hdmr"): pairframe = not single
                if sc is not None and pairframe != single and len(sc): scores = [int(v) for v in np.argsort(np.argsort(np.nan_to_num(sc, nan=-1.0)))]
            out.append(dict(rows=rows, cols=[str(c) for c in f.columns], cells=[[num(f.iat[i, k]) for k in range(f.shape[1])] for i in range(f.shape[0])], scores=scores))
        c = dict(kind=kind, names=names, groups=[str(x) for x in groups], order=order, res=res, frames=out, active=active, bins=[str(num(b)) for b in Si["bins"]] if kind == "rsa" else [])
        cases.append(c); meta.append(desc)

    total = 150 if big else 70
    for i in range(total):
        kind = KINDS[i % len(KINDS)]; rot = i // len(KINDS)
        D = rnd.choice([2, 2, 3, 4, 5]) if kind not in ("hdmr", "enhanced_hdmr") else rnd.choice([2, 3, 4])
        if kind == "sobol": D = [2, 3, 4, 5, 6, 2, 9, 3, 12][(i + rot) % 9]
        if kind in ("morris", "pawn", "rsa", "discrepancy"): D = [3, 9, 2, 8, 5][rot % 5]
        if "hdmr" in kind: D = [4, 3, 5, 2, 4][rot % 5]
        if kind == "ff": D = [9, 3, 2, 6, 12, 4, 5, 7][rot % 8]
        names = words(rnd, D)
        p = dict(num_vars=D, names=names, bounds=[distlib.bounds("unif", rnd) for _ in range(D)])
        if kind in ("fast", "discrepancy", "dgsm", "rsa"): p["bounds"] = [[0.0, 1.0]] * D
        gmode = rnd.choice(["none", "groups", "groups", "names", "single"])
        if kind == "sobol": gmode = ["groups", "none", "groups", "single", "groups", "names"][(i // 3) % 6]
        single_group_ok = kind in ("sobol", "pawn", "rsa", "discrepancy")
        if gmode == "single" and not single_group_ok: gmode = "groups"
        if gmode == "groups":
            lab = words(rnd, D); p["groups"] = [lab[rnd.randrange(max(2, D - 1))] for _ in range(D)]
            if len(set(p["groups"])) == 1 and not single_group_ok: p["groups"][0] = lab[-1]
        elif gmode == "names": p["groups"] = rnd.sample(names, D)       # every group a single parameter, labelled with another's name
        elif gmode == "single": p["groups"] = [names[0]] * D
        elif rot % 2: p["groups"] = None
        if kind == "morris" and p.get("groups") and len(set(p["groups"])) == 1: p["groups"] = None
        order = rnd.choice([1, 2, 2]) if kind in ("sobol", "ff") else rnd.choice([1, 2, 2, 3]) if kind in ("hdmr", "enhanced_hdmr") else 1
        if "hdmr" in kind and D > 3: order = 3
        if D == 2: order = min(order, 2)
        if kind == "ff" and D > 8: order = 2
        # the output depends on one parameter, or on the product of two
        pair = order >= 2 and rnd.random() < .5 and D >= 2
        grp = p.get("groups") if kind in GROUPED else None
        ng = len(set(grp)) if grp else D
        if pair and grp and ng > 1:
            a = rnd.randrange(D); b = rnd.choice([j for j in range(D) if grp[j] != grp[a]])
        else: a, b = rnd.sample(range(D), 2)
        active = [a + 1, b + 1] if pair else [a + 1]
        lo = np.array([x[0] for x in p["bounds"]], float); w = np.array([x[1] - x[0] for x in p["bounds"]], float)
        def f(X):
            u = (np.asarray(X, float) - lo) / w - .5
            return 12 * u[:, a] * u[:, b] if pair else 3 * u[:, a] + 1e-3 * (u @ (1.0 + np.arange(D)))
        sd = rnd.randint(0, 999); pp = copy.deepcopy(p)
        N = 320 if "hdmr" in kind else 64
        par = False
        if kind == "sobol": X = ctx.call(ssob.sample, pp, 256, calc_second_order=order == 2, seed=sd)
        elif kind == "morris": X = ctx.call(smor.sample, pp, 6, seed=sd)
        elif kind == "fast": X = ctx.call(fast_sampler.sample, pp, 200, seed=sd)
        elif kind == "dgsm": X = ctx.call(finite_diff.sample, pp, 20, seed=sd)
        elif kind == "ff": X = ctx.call(sff.sample, pp, seed=sd); pp = copy.deepcopy(p)
        else: X = lo + w * g.random((N, D))
        desc = dict(kind=kind, problem=p, order=order, active=active, seed=sd)
        if is_err(X): ctx.bad("valid-request-fails", desc, X); break
        Y = f(np.asarray(X)[:, :D])
        fn = {"sobol": lambda q, X, Y: sobol.analyze(q, Y, calc_second_order=order == 2, num_resamples=6, parallel=par, n_processors=2 if par else None, seed=sd),
              "morris": lambda q, X, Y: morris.analyze(q, X, Y, num_resamples=8, scaled=rot % 2 == 1, seed=sd), "fast": lambda q, X, Y: fast.analyze(q, Y, num_resamples=6, seed=sd),
              "rbd_fast": lambda q, X, Y: rbd_fast.analyze(q, X, Y, M=4, num_resamples=6, seed=sd), "delta": lambda q, X, Y: delta.analyze(q, X, Y, num_resamples=4, seed=sd),
              "dgsm": lambda q, X, Y: dgsm.analyze(q, X, Y, num_resamples=6, seed=sd), "ff": lambda q, X, Y: ff.analyze(q, X, Y, second_order=order == 2),
              "pawn": lambda q, X, Y: pawn.analyze(q, X, Y, S=4, seed=sd), "rsa": lambda q, X, Y: rsa.analyze(q, X, Y, bins=5, target=["Y", "X"][rot % 2]),
              "discrepancy": lambda q, X, Y: discrepancy.analyze(q, X, Y, seed=sd), "hdmr": lambda q, X, Y: hdmr.analyze(q, X, Y, maxorder=order, K=2, R=300, seed=sd),
              "enhanced_hdmr": lambda q, X, Y: enhanced_hdmr.analyze(q, X, Y, max_order=order, poly_order=2, bootstrap=2, subset=300, seed=sd)}[kind]
        mod = {"sobol": "sobol", "morris": "morris", "fast": "fast", "rbd_fast": "rbd_fast", "delta": "delta", "dgsm": "dgsm", "ff": "ff", "pawn": "pawn", "rsa": "rsa", "discrepancy": "discrepancy", "hdmr": "hdmr", "enhanced_hdmr": "enhanced_hdmr"}[kind]
        use_spec = rot % 3 == 2 and len(set(p.get("groups") or "ab")) > 1 and kind not in ("ff",)
        par = kind == "sobol" and i % 8 == 4
        if not use_spec:
            Si = ctx.call(fn, pp, np.asarray(X), Y)
            if is_err(Si): ctx.bad("valid-request-fails", desc, Si); break
            before = copy.deepcopy({k: v for k, v in dict.items(Si) if k not in ("Em", "hdmr", "idx")})
            fr = ctx.call(Si.to_df)
            if is_err(fr): ctx.bad("conversion-fails", desc, fr); break
            fr2 = ctx.call(Si.to_df)
            if not same(before, {k: v for k, v in dict.items(Si) if k not in ("Em", "hdmr", "idx")}) or is_err(fr2): ctx.bad("conversion-changes-result", desc, ""); break
            for A, B in zip(frames_of(fr, kind), frames_of(fr2, kind)):
                if not A.equals(B): ctx.bad("conversion-not-repeatable", desc, ""); break
            record(Si, fr2 if i % 2 else fr, kind, p, order, active, desc); ctx.count("direct")
        else:
            # several named outputs on a ProblemSpec: one set of frames per output, in the order of the outputs
            outs = [["second", "first"], ["q"], ["c", "a", "b"]][rot % 3] if i % 2 else ["o"]
            spec = ProblemSpec(dict(copy.deepcopy(p), outputs=list(outs)))
            acts = [rnd.randrange(D) for _ in outs]
            YY = np.column_stack([3 * ((X[:, :D] - lo) / w - .5)[:, q] + 1e-3 * (((X[:, :D] - lo) / w) @ (1.0 + np.arange(D))) + t for t, q in enumerate(acts)])
            nm = len(outs)
            def go():
                spec.set_samples(np.asarray(X)); spec.set_results(YY if nm > 1 else YY[:, 0])
                k = dict(sobol=dict(calc_second_order=order == 2, num_resamples=6, seed=sd), morris=dict(num_resamples=8, seed=sd), fast=dict(num_resamples=6, seed=sd), rbd_fast=dict(M=4, num_resamples=6, seed=sd), delta=dict(num_resamples=4, seed=sd), dgsm=dict(num_resamples=6, seed=sd),
                         pawn=dict(S=4, seed=sd), rsa=dict(bins=5), discrepancy=dict(seed=sd), hdmr=dict(maxorder=order, K=2, R=300, seed=sd), enhanced_hdmr=dict(max_order=order, poly_order=2, bootstrap=2, subset=300, seed=sd))[kind]
                m = {"sobol": sobol, "morris": morris, "fast": fast, "rbd_fast": rbd_fast, "delta": delta, "dgsm": dgsm, "pawn": pawn, "rsa": rsa, "discrepancy": discrepancy, "hdmr": hdmr, "enhanced_hdmr": enhanced_hdmr}[kind]
                if kind == "hdmr" and nm > 1: return None, None
                if nm > 1 and i % 4 == 1: spec.analyze(m.analyze, nprocs=2, **k)
                else: spec.analyze(m.analyze, **k)
                return spec.analysis, spec.to_df()
            r = ctx.call(go)
            desc = dict(desc, outputs=outs)
            if is_err(r): ctx.bad("valid-request-fails", desc, r); break
            an, fr = r
            if an is None: continue
            ctx.count("spec")
            if nm == 1: record(an, fr, kind, p, order, [acts[0] + 1], desc)
            else:
                if list(an) != outs or len(fr) != nm: ctx.bad("output-frames", desc, list(an)); break
                for o, q, F in zip(outs, acts, fr): record(an[o], F, kind, p, order, [q + 1], dict(desc, output=o))
        if ctx.full: return
    # names that a method uses for entries of its own
    X = g.random((80, 3)); Y = X[:, 0] + X[:, 1] ** 2
    own = dict(rsa=(rsa, ("names", "bins", "target")), pawn=(pawn, ("names", "mean", "CV")), delta=(delta, ("names", "delta", "S1", "notes")), rbd_fast=(rbd_fast, ("names", "S1")), discrepancy=(discrepancy, ("names", "s_discrepancy")))
    for kind, (mod, labels) in own.items():
        kw = dict(rsa=dict(bins=4), delta=dict(seed=1, num_resamples=3), rbd_fast=dict(seed=1, M=3, num_resamples=3)).get(kind, {})
        ref = ctx.call(mod.analyze, dict(num_vars=3, names=["a", "b", "c"], bounds=[[0, 1]] * 3), X, Y, **kw)
        for nm in labels:
            ctx.count("names-of-entries"); r = ctx.call(mod.analyze, dict(num_vars=3, names=["a", nm, "c"], bounds=[[0, 1]] * 3), X, Y, **kw)
            fr, fw = (ctx.call(r.to_df) if not is_err(r) else r), (ctx.call(ref.to_df) if not is_err(ref) else ref)
            ren = lambda L: [nm if x == "b" else x for x in map(str, L)]
            if is_err(fr) or is_err(fw) or list(map(str, fr.columns)) != ren(fw.columns) or (kind != "rsa" and list(map(str, fr.index)) != ren(fw.index)) or not np.allclose(*(np.asarray(F.drop(columns=["notes"], errors="ignore"), float) for F in (fr, fw)), equal_nan=True):
                ctx.bad("name-of-an-entry", dict(analysis=kind, name=nm), fr, sig=f"rsa-parameter-named-{nm}" if kind == "rsa" else None)
    st = []
    k0 = next(k for k, c in enumerate(cases) if c["kind"] == "sobol" and c["order"] == 2 and len(c["frames"]) == 3 and len(c["frames"][2]["rows"]) > 1)
    for fi, what, cl in ((2, "rows", "labels"), (2, "cells", "cell"), (0, "cols", "columns")):
        d = copy.deepcopy(cases[k0]); v = d["frames"][fi][what]
        if what == "rows": v[0], v[1] = v[1], v[0]
        elif what == "cells": v[0], v[1] = v[1], v[0]
        else: v.append("extra")
        if what == "cells" and v[0] == v[1]: continue
        st.append((d, cl))
    d = copy.deepcopy(cases[k0]); d["frames"].pop(); st.append((d, "number-of-frames"))
    ks = next(k for k, c in enumerate(cases) if c["frames"][0]["scores"] and len(set(c["frames"][0]["scores"])) > 1)
    d = copy.deepcopy(cases[ks]); d["frames"][0]["scores"] = [-x for x in d["frames"][0]["scores"]]; st.append((d, "another-parameters-value"))
    for (c, m), v in zip(zip(cases, meta), ctx.trace("FrameTrace", cases, selftest=st)):
        if not v["ok"]: ctx.bad(v["clause"], dict(m, frame=v["at"], recorded=c["frames"][max(v["at"] - 1, 0)]), f"{c['kind']} frame {v['at']}")
        if ctx.full: return
