"""C02: Sobol' indices equal spec/SobolIndices.tla evaluated exactly on the outputs."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import sobol as s_sobol, saltelli as s_saltelli
from SALib.analyze import sobol

LAB = ["z", "a", "m", "g1", "g10", "g", "q"]


def prob(D, grp):
    p = {"num_vars": D, "names": [f"x{D-j}" for j in range(D)], "bounds": [[0, 1]] * D}
    if grp is not None:
        p["groups"] = [LAB[g] for g in grp]
    return p


def blocklen(grp, so):
    G = len(set(grp)); G = len(grp) if G == 1 else G
    return (2 * G + 2 if so else G + 2), G


def compare(ctx, exp, S, so, desc):
    G = exp["g"]
    for key, e in (("S1", exp["main"]["s1"]), ("ST", exp["main"]["st"])):
        v = np.asarray(S[key])
        if v.shape != (G,):
            return ctx.bad(key + "-shape", desc, v.shape)
        for k in range(G):
            if not close(v[k], rat(e[k])):
                return ctx.bad(key, desc, f"index {k}: got {v[k]!r}, specified {e[k]}")
        c = np.asarray(S[key + "_conf"])
        if c.shape != (G,):
            return ctx.bad(key + "_conf-shape", desc, c.shape)
    if so:
        v = np.asarray(S["S2"])
        if v.shape != (G, G) or np.asarray(S["S2_conf"]).shape != (G, G):
            return ctx.bad("S2-shape", desc, v.shape)
        for j in range(G):
            for k in range(G):
                if j < k:
                    if not close(v[j, k], rat(exp["main"]["s2"][j][k])):
                        return ctx.bad("S2", desc, f"pair {j},{k}: got {v[j,k]!r}, specified {exp['main']['s2'][j][k]}")
                elif not np.isnan(v[j, k]):
                    return ctx.bad("S2-lower-triangle", desc, f"{j},{k}: {v[j,k]!r}")
    elif "S2" in S:
        return ctx.bad("S2-not-requested", desc)


def run(ctx):
    ctx.neighbours(s_sobol, s_saltelli, sobol)
    big = ctx.thorough
    ctx.model("MCSobolIndices", f"SPECIFICATION MCSpec\nCONSTANTS\n N0 = {2 if big else 1}\n V = {1 if big else 2}\n"
              "INVARIANTS NullInput STNonNegative OnlyInput AdditiveRows\nCHECK_DEADLOCK FALSE\n", timeout=800)
    if not big:
        ctx.model("MCSobolIndices", "SPECIFICATION MCSpec\nCONSTANTS\n N0 = 2\n V = 1\n"
                  "INVARIANTS NullInput STNonNegative OnlyInput AdditiveRows\nCHECK_DEADLOCK FALSE\n", timeout=800)
    rnd = ctx.rnd
    cases, meta = [], []

    def add(D, grp, so, N, amp=6, kind="rand", extra=0, **kw):
        g = list(range(D)) if grp is None else grp
        L, G = blocklen(g, so)
        if kind == "rand":
            y = [rnd.randint(-amp, amp) for _ in range(N * L + extra)]
        elif kind == "offset":
            y = [rnd.randint(0, 3) + 20 for _ in range(N * L + extra)]
        elif kind == "binary":
            y = [rnd.randint(0, 1) for _ in range(N * L + extra)]
        elif kind == "flatAB":     # A and B constant, cross rows vary
            y = [(2 if i % L in (0, L - 1) else rnd.randint(0, 4)) for i in range(N * L)]
        elif kind == "sparse":     # a few units in every part of the design
            y = [0] * (N * L)
            for i in range(14):
                b = (i * N) // 14 + rnd.randrange(N // 14)
                y[b * L + rnd.randrange(L)] = rnd.choice([-1, 1])
                y[b * L + L - 1] = 1
            y[-1] = 1
        if len(set(y)) < 2:
            y[1 % len(y)] += 1
        cases.append(dict(groups=[x + 1 for x in g], so=so, y=y, picks=[]))
        meta.append(dict(problem=prob(D, grp), so=so, y=y, kw=kw))
    # all partitions of up to 4 parameters, both orders
    for D in range(1, 5):
        for grp in [None] + rgs(D):
            for so in (True, False):
                N = rnd.choice([1, 2, 3, 4])
                L, G = blocklen(list(range(D)) if grp is None else grp, so)
                add(D, grp, so, min(N, max(1, 40 // L)))
    for kind in ("offset", "binary", "flatAB"):
        for r in range(20 if big else 6):
            D = rnd.randint(2, 4)
            add(D, None if r % 2 else [rnd.randrange(3) for _ in range(D)], bool(r % 3), rnd.choice([2, 3]), kind=kind)
    for r in range(60 if big else 15):      # larger problems, small amplitudes
        D = rnd.randint(4, 9)
        add(D, None if r % 2 else [rnd.randrange(rnd.randint(2, 5)) for _ in range(D)], bool(r % 3), rnd.choice([1, 2, 3]), amp=3)
    # long designs, mostly equal outputs (exact within the integer range)
    for D, so, N in ((1, False, 700), (2, False, 530), (1, True, 600)) + (((3, False, 1100), (1, False, 2100)) if big else ()):
        add(D, None, so, N, kind="sparse")
    # output sizes around block multiples
    for D in (1, 2, 3, 4):
        for so in (True, False):
            for grp in (None, [0, 1, 0, 1][:D] if D > 1 else None, [0] * D):
                L, G = blocklen(list(range(D)) if grp is None else grp, so)
                for extra in (1, L - 1, L // 2, 2):
                    add(D, grp, so, 2, extra=extra, amp=2)
    exp = ctx.oracle("SobolOracle", cases)
    lvl = [0.95, 0.9, 0.5]
    for i, (c, m, e) in enumerate(zip(cases, meta, exp)):
        y = np.array(c["y"], dtype=float)
        if i % 5 == 1:
            big_ = np.zeros(2 * len(y)); big_[::2] = y; y = big_[::2]      # non-contiguous
        if i % 4 == 3:
            y = y * 2.0 ** rnd.choice([-20, 10]) + 0.0       # exact scaling leaves the indices unchanged
        keep = y.copy()
        p = copy.deepcopy(m["problem"])
        pp = ProblemSpec(p) if i % 3 == 0 else p
        kw = dict(calc_second_order=c["so"], num_resamples=rnd.choice([2, 5, 20]), seed=rnd.randint(1, 99), conf_level=lvl[i % 3], keep_resamples=bool(i % 2))
        S = ctx.call(sobol.analyze, pp, y, **kw)
        desc = dict(m, kwargs=kw, scaled=bool(i % 4 == 3))
        ctx.samples += 1
        if not e["accept"]:
            ctx.count("rejected-size")
            if not is_err(S):
                ctx.bad("size-rule", desc, f"{len(y)} outputs accepted for {e['g']} groups")
            continue
        if is_err(S):
            ctx.bad("valid-request-fails", desc, S); continue
        ctx.count("exact"); ctx.traces += 1
        compare(ctx, e, S, c["so"], desc)
        if ctx.full:
            return
    # confidence level validation
    y = np.arange(12.0) % 5
    for lv, ok in ((0.0, False), (1.0, False), (-.1, False), (1.5, False), (.01, True), (.99, True)):
        S = ctx.call(sobol.analyze, prob(2, None), y, conf_level=lv, num_resamples=3, seed=1)
        if is_err(S) == ok:
            ctx.bad("conf-level", {"level": lv}, S)
    # designs from both samplers are read with the block length they were written with:
    # integer-valued models on sampled designs, exact expectation
    sc, sm = [], []
    for r in range(60 if big else 24):
        D = rnd.randint(2, 4)
        grp = None if r % 4 == 0 else ([0] * D if r % 4 == 1 else [rnd.randrange(2) for _ in range(D)])
        so = bool(r % 2)
        p = prob(D, grp)
        N = rnd.choice([2, 4])
        fn, kw = (s_sobol.sample, dict(seed=r + 1)) if r % 3 else (s_saltelli.sample, {})
        X = ctx.call(fn, copy.deepcopy(p), N, calc_second_order=so, **kw)
        if is_err(X):
            ctx.bad("sampler-fails", dict(problem=p, N=N, so=so), X); continue
        t = np.floor(X * 4)
        k = rnd.randrange(D)
        y = (t[:, k] + 2 * t[:, (k + 1) % D]) if r % 5 else t[:, k]
        if len(set(y)) < 2:
            continue
        sc.append(dict(groups=[x + 1 for x in (grp or list(range(D)))], so=so, y=[int(v) for v in y], picks=[]))
        sm.append((p, y, so, k, r % 5 == 0))
    for c, (p, y, so, k, single), e in zip(sc, sm, ctx.oracle("SobolOracle", sc)):
        S = ctx.call(sobol.analyze, copy.deepcopy(p), y, calc_second_order=so, num_resamples=4, seed=1)
        desc = dict(problem=p, y=y, so=so, sampled=True)
        if not e["accept"]:
            ctx.bad("sampler-analysis-block-length", desc, "sampled design does not split into blocks"); continue
        if is_err(S):
            ctx.bad("valid-request-fails", desc, S); continue
        ctx.count("sampled"); ctx.traces += 1
        compare(ctx, e, S, so, desc)
        if single:      # the model reads one parameter only: every other index group is exactly null
            g = c["groups"]; G = len(set(g)); eg = list(range(1, len(g) + 1)) if G == 1 else g
            order = list(dict.fromkeys(eg))
            for q, gg in enumerate(order):
                if gg != eg[k] and (abs(S["ST"][q]) > 1e-12 or abs(S["S1"][q]) > 1e-12):
                    ctx.bad("null-input", desc, f"group {q} ST={S['ST'][q]}")
