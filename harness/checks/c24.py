"""C24: HDMR component terms (spec/Hdmr.tla)."""
import copy, itertools
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.analyze import hdmr, enhanced_hdmr
import distlib
ZQ = distlib.ND.inv_cdf
UNDEF = -999999999


def words(rnd, n): return rnd.sample(["x10", "x2", "b", "a", "Zeta", "k_s", "p q", "C", "x 1", "w"], n)


def run(ctx):
    ctx.neighbours(hdmr, enhanced_hdmr)
    big = ctx.thorough
    cfg = lambda v, d, l, y: f"SPECIFICATION Spec\nCONSTANTS\n D = {d}\n LEV = {l}\n YMAX = {y}\n VARIANT = \"{v}\"\nINVARIANTS AllTerms Shares Whole TotalsAgree TotalAtLeastFirst Irrelevant AdditiveTotals\nCHECK_DEADLOCK FALSE\n"
    ctx.model("MCHdmr", cfg("design", 3, 2, 1), cover=["Add"], workers=6)
    ctx.model("MCHdmr", cfg("design", 2, 2, 3), workers=6)
    if big: ctx.model("MCHdmr", cfg("design", 2, 3, 1), workers=6); ctx.model("MCHdmr", cfg("design", 3, 2, 2), workers=6, timeout=800)
    for v in ("leading-only", "pairs-only"):
        ok, out = ctx.model("MCHdmr", cfg(v, 3, 2, 1), expect_ok=False, workers=1)
        if ok or "Invariant TotalsAgree is violated" not in out: raise MachineryError("wrong design not refuted: " + v + out[-600:])
        ctx.count("refuted-wrong-design")
    rnd, g = ctx.rnd, ctx.nprng
    tcases, tmeta = [], []

    def fx(v): return UNDEF if v is None or not math.isfinite(float(v)) else int(round(min(max(float(v), -400), 400) * 1e6))
    def record(kind, Si, names, order, K, closed, desc, tol=1e-6):
        sep = lambda t: str(t).split("/")
        d = lambda k: [fx(x) for x in np.asarray(Si[k], float).ravel()]
        need = ["Sa", "Sb", "S", "ST", "Sa_conf", "Sb_conf", "S_conf", "ST_conf", "Term", "Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf"]
        miss = [k for k in need if k not in Si]
        if miss: ctx.bad("missing-entries", desc, miss); return
        sel = Si["select"] if kind == "hdmr" else np.asarray(Si["Signf"], float) * K / 100
        n = len(Si["S"])
        tcases.append(dict(names=names, order=order, terms=[sep(t) for t in Si["Term"]], S=d("S"), Sa=d("Sa"), Sb=d("Sb"), ST=d("ST"), Sconf=d("S_conf"), Saconf=d("Sa_conf"), Sbconf=d("Sb_conf"), STconf=d("ST_conf"),
                           select=[int(round(float(x))) for x in np.ravel(sel)], selmax=K, Ssum=fx(Si["S_sum"]), Sasum=fx(Si["Sa_sum"]), Sbsum=fx(Si["Sb_sum"]), tol=8 + n, ctol=int(tol * 1e6) + 2, closed=closed))
        tmeta.append(desc)

    def values(desc, clause, got, want, tol):
        got = np.asarray(got, float); want = np.asarray(want, float)
        if got.shape != want.shape or not np.all(np.abs(got - want) <= tol): ctx.bad(clause, desc, f"expected {np.round(want, 6).tolist()}, got {np.round(got, 6).tolist()}"); return False
        return True

    # ---- grids: shares, totals and emulator are the exact functional ANOVA of the outputs
    grids = [("enh", (3, 3), 36), ("enh", (3, 3, 3), 12), ("enh", (4, 4), 20), ("hdmr", (4, 4), 20), ("hdmr", (4, 4, 4), 5), ("enh", (3, 3, 3, 3), 4), ("hdmr", (6, 6), 9), ("enh", (5, 5), 13), ("hdmr", (5, 4, 4), 4), ("enh", (4, 4, 4), 5)]
    cases, meta = [], []
    for i in range(48 if big else 22):
        m, lev, reps = grids[i % len(grids)]; D = len(lev)
        if i >= len(grids) and len(lev) == 4 and not big: lev, reps, D = (3, 3, 3), 12, 3
        G = list(itertools.product(*[range(l) for l in lev]))
        style = rnd.choice(["any", "additive", "poly", "one", "pair"]) if not (m == "hdmr" and lev in ((6, 6), (5, 4, 4))) else rnd.choice(["additive-lin", "poly", "pair"])
        if style == "any": y = [rnd.randint(0, 9) for _ in G]
        elif style == "additive": t = [[rnd.randint(0, 4) for _ in range(l)] for l in lev]; y = [sum(t[j][x[j]] for j in range(D)) for x in G]
        elif style == "additive-lin": c = [rnd.randint(0, 3) for _ in lev]; y = [sum(c[j] * x[j] for j in range(D)) for x in G]
        elif style == "one": j = rnd.randrange(D); t = rnd.sample(range(9), lev[j]); y = [t[x[j]] for x in G]
        elif style == "pair":
            a, b = rnd.sample(range(D), 2); y = [x[a] * x[b] + rnd.choice([0]) for x in G]
        else:
            c = [rnd.randint(0, 2) for _ in lev]; a, b = rnd.sample(range(D), 2); k = rnd.randint(0, 1); y = [sum(c[j] * x[j] for j in range(D)) + x[a] * x[b] + k * int(np.prod(x)) % 40 for x in G] if max(lev) <= 5 and not (m == "hdmr" and lev == (5, 4, 4)) else [sum(c[j] * x[j] for j in range(D)) + x[a] * x[b] for x in G]
        if len(set(y)) == 1: y = [x[0] for x in G]
        if max(y) > 60: y = [v % 10 for v in y]
        order = rnd.randint(1, 3)
        if i % 11 in (1, 4, 5) and D == 3:      # an interaction of all three, analysed as such
            order = 3; y = [rnd.randint(0, 9) for _ in G] if max(lev) < 5 and m == "enh" else [(x[0] - 1) * (x[1] - 1) * x[2] + x[1] + 9 for x in G]
        cases.append(dict(lev=list(lev), y=y, order=min(order, D), names=[], groups=[])); meta.append((m, reps, G, order))
    res = ctx.oracle("HdmrOracle", cases)
    for i, (c, (m, reps, G, order), e) in enumerate(zip(cases, meta, res)):
        D = len(c["lev"]); names = words(rnd, D); o = c["order"]
        sc, off = np.array([rnd.choice([.5, 1, 3, 100]) for _ in range(D)]), np.array([rnd.choice([-2.0, 0, 1, 50]) for _ in range(D)])
        a0, b0 = rnd.choice([1.0, -2.0, .01, 1000.0]), rnd.choice([0.0, 5.0, -300.0])
        if i % 4 == 1: off = off + 3.3e7 * sc * rnd.choice([-1, 1]) / 7          # far from zero
        if i % 4 == 2: b0 = rnd.choice([-1, 1]) * 2.3e6 * abs(a0)
        P = np.array(G, float) * sc + off; Yg = a0 * np.array(c["y"], float) + b0
        perm = g.permutation(len(P) * reps)
        X, Y = np.repeat(P, reps, 0)[perm], np.repeat(Yg, reps)[perm]
        R = len(X); f = R / (R - 1.0)
        p = dict(num_vars=D, names=list(names), bounds=[[o0, o0 + s0 * (l - 1)] for o0, s0, l in zip(off, sc, c["lev"])])
        if i % 3 == 0: p["groups"] = None
        desc = dict(analysis=m, problem=p, levels=c["lev"], y=c["y"], copies=reps, order=order, scale=[a0, b0])
        want = [rat(s) for s in e["S"]]; wST = [rat(s) for s in e["ST"]]; emu = a0 * np.array(e["emu"], float) / e["n"] + b0
        K = rnd.choice([1, 1, 2])
        if m == "hdmr":
            kw = dict(maxorder=o, m=1, K=K, R=R, lambdax=1e-12, seed=i, alpha=rnd.choice([.9, .95])); tol = 3e-4 if o < 3 else 2e-2
            Si = ctx.call(hdmr.analyze, copy.deepcopy(p), X, Y, **kw)
        else:
            ext = i % 2 == 0; po = max(c["lev"]) - 1
            if o == 3 and po > 2 and ext: ext = False          # a wide extended basis is ill-conditioned
            kw = dict(max_order=order, poly_order=po, bootstrap=K, subset=R, extended_base=ext, max_iter=100, l2_penalty=1e-8, return_emulator=True, seed=i); tol = 1e-4
            Si = ctx.call(enhanced_hdmr.analyze, copy.deepcopy(p), X, Y, **kw)
        desc["options"] = kw
        ctx.count("grid"); ctx.traces += 1
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        if not values(desc, "shares", Si["S"], np.array(want) * f, np.array(want) * .3 / R + tol): return
        if not values(desc, "structural", Si["Sa"], np.array(want) * (f if m == "enh" else 1), np.array(want) * 2.5 / R + tol): return
        if not values(desc, "correlative", Si["Sb"], np.zeros(len(want)), tol): return
        if not values(desc, "totals", np.asarray(Si["ST"], float)[:D], np.array(wST) * f, np.array(wST) * .3 / R + 3 * tol): return
        for k in ("S_conf", "Sa_conf", "Sb_conf"):      # every replicate uses all rows
            if not values(desc, "confidence-of-equal-replicates", Si[k], np.zeros(len(want)), tol): return
        # the emulator, on the analysed points and on some of them only
        some = np.array(sorted(rnd.sample(range(len(P)), max(2, len(P) // 3))))
        for pts in (np.arange(len(P)), some):
            if m == "hdmr":
                r = ctx.call(Si.emulate, P[pts]); got = r if is_err(r) else np.asarray(Si["emulated"]) + Y.mean()
            else:
                r = ctx.call(Si.emulate, P[pts]); got = r if is_err(r) else np.asarray(r) + Y.mean()
            if is_err(got): ctx.bad("emulator-fails", desc, got); return
            if m == "hdmr":     # outputs to compare with bring their own mean
                r2 = ctx.call(Si.emulate, P[pts], Yg[pts])
                if is_err(r2): ctx.bad("emulator-fails", desc, r2); return
                if not same(np.asarray(Si["emulated"]), got - Y.mean() + Yg[pts].mean(), 1e-9, 1e-9 * (abs(b0) + 1)): ctx.bad("emulator-mean", desc, ""); return
            if not values(dict(desc, points=len(pts)), "emulator", got, emu[pts], abs(a0) * (max(c["y"]) - min(c["y"]) + 1) * (1e-4 if m == "enh" else 2e-3 if o < 3 else 3e-2)): return
        record("hdmr" if m == "hdmr" else "enh", Si, names, o, K, True, desc, tol=tol * 5 + 3 / R)
        if ctx.full: return

    # ---- arbitrary samples: bookkeeping, replicates and confidence values
    for i in range(36 if big else 14):
        m = ["hdmr", "enh"][i % 2]; D = rnd.choice([2, 3, 4, 5]) if i % 4 else 3; order = [1, 2, 3, 2][(i // 2) % 4]
        if m == "hdmr" and order == 3: D = 4 if i % 16 == 4 else 3
        if m == "hdmr" and D == 2: order = min(order, 2)
        if m == "enh" and D > 4 and order == 3: D = 4
        o = min(order, D); names = words(rnd, D)
        dist = rnd.choice(["unif", "mix"]); p = distlib.problem(rnd, D, None, "mix" if dist == "mix" else None); p["names"] = list(names)
        n = rnd.choice([330, 400, 420]); U = g.random((n, D)) * .98 + .01
        if i % 3 == 1: U[:, -1] = (U[:, -1] + U[:, 0]) / 2          # correlated inputs
        X = np.array(distlib.scale(p, U)); lo, hi = X.min(0), X.max(0)
        X[rnd.randrange(n)] = hi; X[:1] = lo
        Z = (X - lo) / (hi - lo)
        Y = np.sin(4 * Z[:, 0]) + Z[:, -1] ** 2 * 2 + Z[:, 0] * Z[:, 1] * 3 + (g.normal(size=n) * .3 if i % 2 == 0 else 0)
        K = rnd.choice([1, 2, 3, 3]); R = rnd.choice([300, 310, 320]); alpha = rnd.choice([.9, .95, .99]); sd = rnd.randint(0, 99)
        desc = dict(analysis=m, problem=p, n=n, order=order, K=K, R=R, alpha=alpha, seed=sd)
        if m == "hdmr":
            kw = dict(maxorder=order, m=rnd.choice([1, 2, 3]) if o < 3 else 1, K=K, R=R, alpha=alpha, lambdax=rnd.choice([.01, .1]), maxiter=rnd.choice([1, 100]))
            f = lambda a=alpha, spec=False, **k: ctx.call(hdmr.analyze, ProblemSpec(copy.deepcopy(p)) if spec else copy.deepcopy(p), X, Y, seed=sd, **dict(kw, alpha=a, **k))
        else:
            kw = dict(max_order=order, poly_order=rnd.choice([2, 3]) if o < 3 else 2, bootstrap=K, subset=R, alpha=alpha, extended_base=i % 4 == 1, l2_penalty=rnd.choice([.01, .1]), return_emulator=True)
            f = lambda a=alpha, spec=False, **k: ctx.call(enhanced_hdmr.analyze, ProblemSpec(copy.deepcopy(p)) if spec else copy.deepcopy(p), X, Y, seed=sd, **dict(kw, alpha=a, **k))
        desc["options"] = kw
        Si = f(spec=i % 5 == 2 and D > 1); ctx.count("sample"); ctx.traces += 1
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        record(m, Si, names, o, K, False, desc)
        if m == "hdmr" and list(Si["names"]) != list(Si["Term"]): ctx.bad("names", desc, Si["names"]); return
        # printing leaves the result alone
        Sp = f(print_to_console=True)
        cmpk = [k for k in Si if k not in ("Em", "RT", "hdmr")]
        if is_err(Sp) or any(k not in Sp or not same(Si[k], Sp[k], 1e-9, 1e-9) for k in cmpk): ctx.bad("printing-changes-result", desc, Sp if is_err(Sp) else [k for k in cmpk if k not in Sp]); return
        # the level: confidence values scale with the two-sided normal quantile
        a2 = rnd.choice([x for x in (.8, .9, .97) if x != alpha]); S2 = f(a2)
        if is_err(S2): ctx.bad("valid-request-fails", desc, S2); return
        fac = ZQ(.5 + a2 / 2) / ZQ(.5 + alpha / 2)
        for k in ("S_conf", "Sa_conf", "Sb_conf", "ST_conf", "S_sum_conf", "Sa_sum_conf", "Sb_sum_conf"):
            if not same(np.asarray(S2[k], float), np.asarray(Si[k], float) * fac, 1e-6, 1e-9): ctx.bad("confidence-level", dict(desc, key=k, other=a2), f"{S2[k]} {Si[k]} {fac}"); return
        # each replicate is the analysis of the rows it drew
        idx = np.asarray(Si["idx"] if m == "hdmr" else Si["hdmr"].idx)
        if idx.shape != ((R, K) if K > 1 else (n, 1)) or any(len(set(idx[:, k])) != idx.shape[0] for k in range(K)): ctx.bad("replicate-rows", desc, idx.shape); return
        rep, ems = [], []
        for k in range(K):
            ix = idx[:, k]
            if not (np.all(X[ix].min(0) == lo) and np.all(X[ix].max(0) == hi)): break
            if m == "enh" and K > 1: break      # the orthonormal basis depends on all rows
            r = ctx.call(hdmr.analyze, copy.deepcopy(p), X[ix], Y[ix], **dict(kw, K=1, R=None)) if m == "hdmr" else Si
            if is_err(r): ctx.bad("valid-request-fails", desc, r); return
            if m == "hdmr": ctx.call(r.emulate, X[:40]); ems.append(np.array(r["emulated"]))
            rep.append({q: np.asarray(r[q], float) for q in ("S", "Sa", "Sb", "ST", "S_sum", "Sa_sum", "Sb_sum", "select")} if m == "hdmr" else {q: np.asarray(r[q], float) for q in ("S", "Sa", "Sb", "ST", "S_sum", "Sa_sum", "Sb_sum")})
        if len(rep) == K:
            z = ZQ(.5 + alpha / 2); ctx.count("replicated")
            for q in ("S", "Sa", "Sb", "ST", "S_sum", "Sa_sum", "Sb_sum"):
                A = np.array([r[q] for r in rep])
                if not same(A.mean(0), np.asarray(Si[q], float), 1e-6, 1e-8): ctx.bad("mean-of-replicates", dict(desc, key=q), f"{A.mean(0)} {Si[q]}"); return
                if not same(z * A.std(0), np.asarray(Si[q + "_conf"], float), 1e-5, 1e-8): ctx.bad("confidence-of-replicates", dict(desc, key=q), f"{z * A.std(0)} {Si[q + '_conf']}"); return
            if m == "hdmr":      # the emulator averages the replicates' component functions
                er = ctx.call(Si.emulate, X[:40])
                if is_err(er): ctx.bad("emulator-fails", desc, er); return
                if not same(np.mean(ems, 0), np.asarray(Si["emulated"]), 1e-6, 1e-7): ctx.bad("emulator-of-replicates", desc, f"{np.abs(np.mean(ems, 0) - Si['emulated']).max()}"); return
            if m == "hdmr" and not same(np.sum([r["select"] for r in rep], 0), Si["select"]): ctx.bad("selection-count", desc, Si["select"]); return
        if ctx.full: return
    # ---- significance: a dominant term is selected, an absent one is not, whatever its order
    for i in range(8 if big else 4):
        m = ["hdmr", "enh"][i % 2]; D = 3; n = 400; U = g.random((n, D)); t = i // 2 % 2
        Y = 5 * (U[:, 0] - .5) * (U[:, 1] - .5) * (1 if t == 0 else 0) + (U[:, 2] - .5) * (2 if t else 0) + .02 * g.normal(size=n)
        p = dict(num_vars=D, names=["u", "v", "w"], bounds=[[0, 1]] * D)
        S = ctx.call(hdmr.analyze, p, U, Y, maxorder=2, m=2, K=1, seed=1) if m == "hdmr" else ctx.call(enhanced_hdmr.analyze, p, U, Y, max_order=2, bootstrap=1, seed=1)
        if is_err(S): ctx.bad("valid-request-fails", {}, S); return
        sel = np.asarray(S["select"] if m == "hdmr" else S["Signf"], float); k = 3 if t == 0 else 2
        if len(sel) != 6 or not sel[k] > 0 or np.argmax(S["S"]) != k: ctx.bad("significant-term-not-selected", dict(analysis=m, t=t), sel)
    # F statistic with the degrees of freedom of the term's own order
    if True:
        import scipy.stats as st
        for i in range(6 if big else 3):
            n = 340; U = g.random((n, 3)); Y = U[:, 0] + .12 * (i + 1) * (U[:, 0] - .5) * (U[:, 1] - .5) * 4 + .35 * g.normal(size=n); p = dict(num_vars=3, names=["u", "v", "w"], bounds=[[0, 1]] * 3)
            for m in ("hdmr", "enh"):
                S = ctx.call(hdmr.analyze, p, U, Y, maxorder=2, m=1, K=1, seed=1) if m == "hdmr" else ctx.call(enhanced_hdmr.analyze, p, U, Y, max_order=2, poly_order=2, bootstrap=1, extended_base=False, seed=1)
                if is_err(S): ctx.bad("valid-request-fails", {}, S); return
                sel = (np.asarray(S["select"]) if m == "hdmr" else np.asarray(S["Signf"]) / 100)
                c1, c2 = (4, 16) if m == "hdmr" else (2, 4); N2 = n
                Sa, S_ = np.asarray(S["Sa"], float), np.asarray(S["S"], float)
                for j in range(6):
                    # SSR0 - SSR1 = 2 cov(Y, f) - var f, in units of the output variance (times n)
                    va = Sa[j] * (1 if m == "hdmr" else (n - 1) / n); gain = 2 * S_[j] * (n - 1) / n - va; p1 = c1 if j < 3 else c2
                    F = gain / p1 / ((1 - gain) / (N2 - p1)); crit = st.f.ppf(.95, p1, N2 - p1)
                    if abs(F - crit) > .15 * crit and (F > crit) != (sel[j] > .5): ctx.bad("selection-test", dict(analysis=m, term=str(S["Term"][j]), F=F, crit=crit), sel); return
    # ---- many parameters, many replicates, high polynomial orders
    for i in range(12 if big else 5):
        kind = i % 5; sd = rnd.randint(0, 99)
        if kind in (0, 1, 2):           # additive or simple models with many parameters
            D, o = [(rnd.choice([8, 9, 11]), 1), (rnd.choice([6, 8, 9]), 2), (rnd.choice([5, 6]), 3)][kind]; n = 420; m = rnd.choice(["hdmr", "enh"]) if kind < 2 and i >= 5 else ["hdmr", "enh", "hdmr"][kind] if i < 5 else "hdmr"
            names = [f"v{j}" for j in rnd.sample(range(40), D)]; U = g.random((n, D)); c = g.permutation(np.arange(1, D + 1)) * 1.0; Y = U @ c
            p = dict(num_vars=D, names=names, bounds=[[0, 1]] * D)
            Si = ctx.call(hdmr.analyze, p, U, Y, maxorder=o, m=2 if o < 3 else 1, K=1, lambdax=1e-6) if m == "hdmr" else ctx.call(enhanced_hdmr.analyze, p, U, Y, max_order=o, poly_order=2, bootstrap=1, l2_penalty=1e-8, extended_base=False, return_emulator=True)
            desc = dict(analysis=m, D=D, order=o, additive=True); ctx.count("wide"); ctx.traces += 1
            if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
            want = np.array([np.cov(c[j] * U[:, j], Y)[0, 1] for j in range(D)]) / Y.var(ddof=1); nt = len(Si["S"])
            if not values(desc, "shares", Si["S"], np.r_[want, np.zeros(nt - D)], 8e-3): return
            if not values(desc, "totals", np.asarray(Si["ST"], float)[:D], want, 2e-2): return
            r = ctx.call(Si.emulate, U[:60]); got = r if is_err(r) else np.asarray(Si["emulated"] if m == "hdmr" else r) + Y.mean()
            if is_err(got): ctx.bad("emulator-fails", desc, got); return
            if not values(desc, "emulator", got, Y[:60], .02 * np.ptp(Y)): return
            record(m, Si, names, o, 1, False, desc)
            if kind == 2:               # totals with three-parameter terms that matter
                Y = Y + sum(rnd.choice([3, 5]) * np.prod(U[:, list(t)], 1) * 4 for t in rnd.sample(list(itertools.combinations(range(D), 3)), 4)); Si = ctx.call(hdmr.analyze, p, U, Y, maxorder=3, m=1, K=1)
                if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
                record("hdmr", Si, names, 3, 1, False, desc)
        elif kind == 3:                 # more replicates than usual
            K, D = rnd.choice([60, 75, 100]), 2; U = g.random((330, D)); Y = 3 * U[:, 0] + 2 * U[:, 1]; p = dict(num_vars=D, names=["a", "b"], bounds=[[0, 1]] * D); desc = dict(K=K)
            for m in ("hdmr", "enh"):
                Si = ctx.call(hdmr.analyze, p, U, Y, maxorder=1, m=2, K=K, R=300, seed=sd) if m == "hdmr" else ctx.call(enhanced_hdmr.analyze, p, U, Y, max_order=1, poly_order=2, bootstrap=K, subset=300, seed=sd, extended_base=False)
                if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
                sel = np.asarray(Si["select"] if m == "hdmr" else Si["Signf"], float); ctx.count("replicates")
                if not same(sel, [K, K] if m == "hdmr" else [100, 100]): ctx.bad("selection-count", dict(desc, analysis=m), f"{sel} of {K} replicates, every one of which needs both terms"); return
                record(m, Si, ["a", "b"], 1, K, False, desc)
        else:
            # renaming and reordering the columns of a correlated sample reorders the terms
          for D, po, o in ((5, 1, 3), (5, 2, 3), (6, 1, 3), (5, 2, 2)):
            n = 520 if po == 1 or o == 2 else 640; U = g.random((n, D)); U[:, -1] = (U[:, -1] + U[:, 0]) / 2; U[:, 1] += U[:, 2] / 2; U[:, 3] += U[:, 4] * .4
            Y = np.sin(3 * U[:, 0]) + 5 * U[:, 1] * U[:, 2] * U[:, 3] + 3 * U[:, -1] * U[:, -2] * U[:, 1]
            perm = g.permutation(D); nm = [f"n{j}" for j in range(D)]; B = [[0, 2]] * D; kw = dict(max_order=o, poly_order=po, bootstrap=1, extended_base=True); desc = dict(analysis="enh", D=D, options=kw, order=perm.tolist())
            A, Bx = ctx.call(enhanced_hdmr.analyze, dict(num_vars=D, names=nm, bounds=B), U, Y, **kw), ctx.call(enhanced_hdmr.analyze, dict(num_vars=D, names=[nm[j] for j in perm], bounds=B), U[:, perm], Y, **kw)
            ctx.count("reordered")
            if is_err(A) or is_err(Bx): ctx.bad("valid-request-fails", desc, A); return
            ta = {frozenset(t.split("/")): v for t, v in zip(A["Term"], zip(A["S"], A["Sa"], A["Sb"]))}; tb = {frozenset(t.split("/")): v for t, v in zip(Bx["Term"], zip(Bx["S"], Bx["Sa"], Bx["Sb"]))}
            off = [sorted(k) for k in ta if k not in tb or not same(ta[k], tb[k], 1e-4, 1e-5)]
            if off: ctx.bad("column-order", dict(desc, terms=off), f"{[ta[frozenset(k)] for k in off][:2]} {[tb.get(frozenset(k)) for k in off][:2]}"); return
            record("enh", A, nm, o, 1, False, desc)
    for po in range(2, 11):             # polynomials of every order, also away from the sample
        n = rnd.choice([300, 600]); U = g.random((n, 2)) * 3 - 1; c = g.integers(-4, 5, 4); ext = rnd.random() < .5
        fy = lambda Z: 2 * Z[:, 0] ** 2 + c[0] * Z[:, 0] + c[1] * Z[:, 1] + (c[2] * Z[:, 1] ** 3 if po > 2 else Z[:, 1] ** 2)
        Y = fy(U); Si = ctx.call(enhanced_hdmr.analyze, dict(num_vars=2, names=["a", "b"], bounds=[[-1, 2]] * 2), U, Y, max_order=1, poly_order=po, bootstrap=1, l2_penalty=1e-9, extended_base=ext, max_iter=500, return_emulator=True)
        desc = dict(analysis="enh", poly_order=po, n=n, coef=c.tolist(), extended=ext); ctx.count("polynomial")
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        Z = np.vstack([U[:30], g.random((20, 2)) * (9 if po < 5 else 3) - (4 if po < 5 else 1)]); r = ctx.call(Si.emulate, Z)
        if is_err(r): ctx.bad("emulator-fails", desc, r); return
        if not values(desc, "emulator", np.asarray(r) + Y.mean(), fy(Z), .01 * np.ptp(fy(Z)) if not ext else 1e-3 * np.ptp(fy(Z))): return
    # ---- requests outside the documented ranges
    one = g.random((320, 1))
    for fn, kw in ((hdmr, dict(maxorder=1)), (enhanced_hdmr, dict(max_order=1))):
        r = ctx.call(fn.analyze, dict(num_vars=1, names=["a"], bounds=[[0, 1]]), one, one[:, 0] * 2 + 1, **kw); ctx.count("rejections")
        if not is_err(r): ctx.bad("single-parameter-accepted", dict(analysis=fn.__name__)); return
    X = g.random((320, 3)); Y = X.sum(1); p = dict(num_vars=3, names=["a", "b", "c"], bounds=[[0, 1]] * 3)
    for fn, kw in ((hdmr, dict(maxorder=0)), (hdmr, dict(maxorder=4)), (hdmr, dict(K=0)), (hdmr, dict(K=101)), (hdmr, dict(m=0)), (hdmr, dict(m=11)), (hdmr, dict(R=299)), (hdmr, dict(R=321)), (hdmr, dict(alpha=.49)), (hdmr, dict(alpha=1.01)), (hdmr, dict(lambdax=-.1)), (hdmr, dict(lambdax=10.1)), (hdmr, dict(maxiter=0)),
                   (enhanced_hdmr, dict(max_order=0)), (enhanced_hdmr, dict(max_order=4)), (enhanced_hdmr, dict(bootstrap=0)), (enhanced_hdmr, dict(bootstrap=101)), (enhanced_hdmr, dict(poly_order=0)), (enhanced_hdmr, dict(poly_order=11)), (enhanced_hdmr, dict(subset=299)), (enhanced_hdmr, dict(subset=321)), (enhanced_hdmr, dict(alpha=.49)), (enhanced_hdmr, dict(l2_penalty=-.1)), (enhanced_hdmr, dict(l2_penalty=10.1)), (enhanced_hdmr, dict(extended_base=False, max_iter=0)), (enhanced_hdmr, dict(extended_base=False, max_iter=1001))):
        r = ctx.call(fn.analyze, copy.deepcopy(p), X, Y, **kw); ctx.count("rejections")
        if not is_err(r): ctx.bad("invalid-accepted", dict(analysis=fn.__name__, options=kw), "")
    for fn in (hdmr, enhanced_hdmr):
        if not is_err(ctx.call(fn.analyze, copy.deepcopy(p), X[:299], Y[:299])): ctx.bad("invalid-accepted", dict(analysis=fn.__name__, rows=299), "")
        if not is_err(ctx.call(fn.analyze, copy.deepcopy(p), X, Y[:-1])): ctx.bad("invalid-accepted", dict(analysis=fn.__name__, mismatch=1), "")
    st_ = []
    k0 = next(k for k, c in enumerate(tcases) if c["order"] >= 2 and c["closed"] and max(c["S"]) > 50000)
    for mod, cl in ((lambda d: d["ST"].__setitem__(0, d["ST"][0] + 40000), "total"), (lambda d: d["terms"].__setitem__(0, d["terms"][1]), "terms"), (lambda d: d.__setitem__("Ssum", d["Ssum"] - 40000), "sums"), (lambda d: d["Sconf"].pop(), "entries"), (lambda d: d["ST"].__setitem__(len(d["names"]), 0), "total-of-interaction"),
                    (lambda d: (d["Sa"].__setitem__(0, d["Sa"][0] + 300000), d.__setitem__("Sasum", d["Sasum"] + 300000)), "structural-plus-correlative")):
        d = copy.deepcopy(tcases[k0]); mod(d); st_.append((d, cl))
    for (c, m), v in zip(zip(tcases, tmeta), ctx.trace("HdmrTrace", tcases, selftest=st_)):
        if not v["ok"]: ctx.bad(v["clause"], dict(m, recorded=c), f"term {v['at']}")
        if ctx.full: return
