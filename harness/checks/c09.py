"""C09: eFAST sampler and analysis (spec/Fast.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import fast_sampler
from SALib.analyze import fast
import distlib
T = 10**6


def mk(rnd, D, i):
    return distlib.problem(rnd, D, None, None if i % 3 == 0 else "mix")


def run(ctx):
    ctx.neighbours(fast_sampler, fast)
    big = ctx.thorough
    ctx.model("MCFast", f"SPECIFICATION Spec\nCONSTANTS\n NMAX = {400 if big else 150}\n MMAX = {6 if big else 4}\n DMAX = {7 if big else 5}\nINVARIANTS Resolvable Separated Spread Used Rejected\nCHECK_DEADLOCK FALSE\n", cover=["Reject", "StartRun", "Column", "NextRun"], workers=6)
    rnd = ctx.rnd
    # ---- designs
    cases, meta = [], []
    plans = [(5, 1, 2), (17, 2, 3), (65, 4, 2), (65, 4, 6), (37, 3, 5), (101, 5, 3), (300, 4, 5), (150, 2, 12), (129, 4, 3), (333, 4, 11)]
    for _ in range(40 if big else 14):
        M = rnd.randint(1, 6)
        plans.append((rnd.randint(4 * M * M + 1, 4 * M * M + 260), M, rnd.randint(2, 12)))
    for i, (N, M, D) in enumerate(plans):
        p = mk(rnd, D, i)
        seed = [i, 0, np.random.default_rng(i), None][i % 4] if i % 2 else i
        q = ProblemSpec(copy.deepcopy(p)) if i % 5 == 1 else copy.deepcopy(p)
        X = ctx.call(fast_sampler.sample, q, N, M, seed) if i % 3 else ctx.call(fast_sampler.sample, q, N, M=M, seed=seed)
        desc = dict(problem=p, N=N, M=M, seed=repr(seed))
        if is_err(X) or X.shape != (N * D, D):
            ctx.bad("valid-request-fails", desc, X if is_err(X) else X.shape); continue
        U = np.array(distlib.unit(p, X))
        if not np.all((U >= -1e-9) & (U <= 1 + 1e-9)):
            ctx.bad("outside-unit", desc); continue
        F = np.clip(np.round(U * T), 0, T).astype(int)
        pick = [(r, j) for r in range(D) for j in range(D)]
        if len(pick) * N > 6000:
            diag = [(r, r) for r in range(D)]
            rest = [x for x in pick if x[0] != x[1]]; rnd.shuffle(rest)
            pick = diag + rest[:max(4, 6000 // N - D)]
        cases.append(dict(kind="design", N=N, M=M, D=D, cols=[[r + 1, j + 1, F[r * N:(r + 1) * N, j].tolist()] for r, j in pick]))
        meta.append((desc, pick)); ctx.samples += N * D
    a = copy.deepcopy(cases[1]); a["cols"][0][2][5] += 3000
    b = copy.deepcopy(cases[1]); b["cols"][0][2], b["cols"][1][2] = b["cols"][1][2], b["cols"][0][2]
    d = copy.deepcopy(cases[1]); d["N"], d["M"] = 16, 2; d["cols"] = []
    for c, (m, pick), v in zip(cases, meta, ctx.trace("FastTrace", cases, selftest=[(a, "off-curve"), (b, "off-curve"), (d, "inadmissible-sampled")])):
        ctx.count("designs")
        if not v["ok"]:
            ctx.bad(v["clause"], dict(m, run_and_parameter=pick[v["at"] - 1] if v["at"] else None))
            if ctx.full: return
    more = []
    # runs have their own random phase
    p = dict(num_vars=4, names=list("abcd"), bounds=[[0, 1]] * 4)
    X = ctx.call(fast_sampler.sample, p, 65, 4, 11)
    if not is_err(X):
        first = [round(float(X[r * 65, r]), 9) for r in range(4)]
        if len(set(first)) == 1: ctx.bad("phases-not-random", dict(first=first))
    # ... from the whole circle: every start below/above the middle, rising/falling occurs (120 runs; a given one is missing with probability (3/4)^120)
    quad = {}
    pq = dict(num_vars=12, names=[f"x{j}" for j in range(12)], bounds=[[0, 1]] * 12)
    for s in range(10):
        X = ctx.call(fast_sampler.sample, copy.deepcopy(pq), 129, 4, s)
        if is_err(X): ctx.bad("valid-request-fails", dict(problem=pq, N=129, M=4, seed=s), X); break
        for r in range(12):
            key = (bool(X[r * 129, r] < .5), bool(X[r * 129, r] < X[r * 129 + 1, r]))
            quad[key] = quad.get(key, 0) + 1
    ctx.count("phase-runs", sum(quad.values()))
    if len(quad) < 4 or min(quad.values()) < 8: ctx.bad("phases-not-from-the-whole-circle", dict(seeds=10, runs=120), quad)
    # one frequency assignment per (N, M, D): other requests in between do not change it
    for N, D in ((401, 9), (150, 6), (333, 12)):
        ref = {}
        for M in (1, 5, 2, 4, 1, 3, 5, 2):
            if N <= 4 * M * M: continue
            X = ctx.call(fast_sampler.sample, dict(num_vars=D, names=[f"x{j}" for j in range(D)], bounds=[[0, 1]] * D), N, M, 7)
            if is_err(X): ctx.bad("valid-request-fails", dict(N=N, M=M, D=D), X); continue
            U = np.clip(np.round(X * T), 0, T).astype(int)
            if M in ref:
                if not np.array_equal(ref[M], U): ctx.bad("depends-on-earlier-requests", dict(N=N, M=M, D=D))
            else: ref[M] = U
            pick = [(0, j) for j in (1, 2, D - 1)] + [(D - 1, 0), (D // 2, D // 2)]
            more.append((dict(kind="design", N=N, M=M, D=D, cols=[[r + 1, j + 1, U[r * N:(r + 1) * N, j].tolist()] for r, j in pick]), dict(N=N, M=M, D=D), pick))
    for (c, m, pick), v in zip(more, ctx.trace("FastTrace", [c for c, _, _ in more])):
        ctx.count("designs-in-sequence")
        if not v["ok"]: ctx.bad(v["clause"], dict(m, run_and_parameter=pick[v["at"] - 1] if v["at"] else None))
    # ---- request domain
    for M in range(1, 7):
        for N, ok in ((4 * M * M, False), (4 * M * M - 1, False), (4 * M * M + 1, True), (M, False)):
            X = ctx.call(fast_sampler.sample, copy.deepcopy(p), N, M=M, seed=1)
            ctx.count("domain")
            if is_err(X, "ValueError") == ok or (is_err(X) and ok):
                ctx.bad("N-domain", dict(N=N, M=M), X if is_err(X) else X.shape)
    for D in (2, 3, 5):
        pd = dict(num_vars=D, names=[f"x{j}" for j in range(D)], bounds=[[0, 1]] * D)
        for r in range(1, D):
            R_ = ctx.call(fast.analyze, pd, np.random.default_rng(r).random(70 * D + r), M=4, num_resamples=2, seed=1)
            ctx.count("domain")
            if not is_err(R_, "ValueError"):
                ctx.bad("length-domain", dict(D=D, extra=r), R_)
    # ---- analysis on prescribed spectra
    cases, meta = [], []
    for i in range(60 if big else 24):
        M = rnd.randint(1, 5); N = rnd.randint(4 * M * M + 1, 4 * M * M + 200); D = rnd.randint(2, 6)
        w = (N - 1) // (2 * M); H = -(-N // 2) - 1
        sp = []
        for r in range(D):
            fs = set(rnd.sample(range(1, H + 1), min(H, rnd.randint(2, 9)))) | {w * rnd.randint(1, M)} | set(rnd.sample([w // 2, w // 2 + 1, max(1, w // 2 - 1), w - 1, w + 1, min(H, M * w + 1)], 3)) | ({M * w} if i % 2 else set())
            sp.append([[f, rnd.randint(1, 6)] for f in sorted(fs) if 1 <= f <= H])
        cases.append(dict(kind="spec", N=N, M=M, D=D, sp=[[[f, x * x] for f, x in s] for s in sp])); meta.append(sp)
    for i, (c, sp, e) in enumerate(zip(cases, meta, ctx.oracle("FastTrace", cases))):
        N, M, D = c["N"], c["M"], c["D"]
        k = np.arange(N)
        Y = np.concatenate([sum(x * np.cos(2 * np.pi * f * k / N + rnd.random() * 7) for f, x in s) + rnd.choice([0, 3.0, -20.0]) for s in sp])
        form = i % 4
        if form == 1: Y = np.repeat(Y, 2)[::2]
        if form == 2: Y = np.asfortranarray(np.column_stack([Y, Y * 0 + 1])).T.copy().T[:, 0]
        p = mk(rnd, D, i)
        if form == 3: p = ProblemSpec(copy.deepcopy(p))
        if i % 4 == 2: Y = Y * rnd.choice([1e-6, 1.0, 1e7]); Y = Y + rnd.choice([-1, 1]) * 1e4 * np.ptp(Y)
        R_ = ctx.call(fast.analyze, p, Y, M=M, num_resamples=3, seed=i)
        ctx.count("spectra")
        desc = dict(N=N, M=M, D=D, spectra=sp)
        if is_err(R_):
            ctx.bad("valid-request-fails", desc, R_)
        else:
            if list(R_["names"]) != list(p["names"]): ctx.bad("names", desc, R_["names"])
            for key, q in (("S1", e["s1"]), ("ST", e["st"])):
                if len(R_[key]) != D: ctx.bad("entries", desc, R_); continue
                for r in range(D):
                    if not close(R_[key][r], rat(q[r]), 1e-7, 1e-7):
                        ctx.bad(key, dict(desc, run=r), f"expected {rat(q[r])}, got {R_[key][r]}"); break
        if ctx.full: return
    # ---- sampler and analysis together on models with known harmonics
    cases, meta = [], []
    for i in range(60 if big else 30):
        M = rnd.randint(1, 4); D = rnd.randint(2, 6)
        N = rnd.randint(max(4 * M * M * (D - 1) * (D if i % 2 else 1), 4 * M * M) + 1, 4 * M * M * D * D + 60)
        terms, seen = [], set()
        for j in range(1, D + 1):
            if rnd.random() < .8:
                h = 1 if M == 1 or rnd.random() < .5 else rnd.randint(1, M)
                terms.append([j, h, rnd.randint(1, 5)])
        if i % 3 == 0 and D > 2:
            a, b = rnd.sample(range(1, D + 1), 2); terms.append([a, 1, b, 1, rnd.randint(1, 4)])
        if terms: cases.append(dict(kind="model", N=N, M=M, D=D, terms=terms))
    used = 0
    for i, (c, e) in enumerate(zip(cases, ctx.oracle("FastTrace", cases))):
        if not e["clean"]: continue
        used += 1
        N, M, D = c["N"], c["M"], c["D"]
        p = mk(rnd, D, i)
        X = ctx.call(fast_sampler.sample, copy.deepcopy(p), N, M=M, seed=i)
        desc = dict(problem=p, N=N, M=M, terms=c["terms"], seed=i)
        if is_err(X): ctx.bad("valid-request-fails", desc, X); continue
        U = np.array(distlib.unit(p, X))
        Y = np.zeros(len(U))
        for t in c["terms"]:
            if len(t) == 3: Y += t[2] * np.cos(t[1] * np.pi * U[:, t[0] - 1])
            else: Y += t[4] * np.cos(t[1] * np.pi * U[:, t[0] - 1]) * np.cos(t[3] * np.pi * U[:, t[2] - 1])
        if i % 3 == 1: Y = Y * rnd.choice([1e-6, 1.0, 1e7]); Y = Y + rnd.choice([-1, 1]) * 1e4 * np.ptp(Y)      # far from zero, in any unit
        R_ = ctx.call(fast.analyze, p, Y, M=M, num_resamples=2, seed=0)
        if is_err(R_): ctx.bad("valid-request-fails", desc, R_); continue
        ctx.traces += 1
        for key, q in (("S1", e["s1"]), ("ST", e["st"])):
            for r in range(D):
                if not close(R_[key][r], rat(q[r]), 1e-6, 1e-6):
                    ctx.bad("recovery-" + key, dict(desc, parameter=r), f"expected {rat(q[r])}, got {R_[key][r]}"); break
        if ctx.full: return
    if used < 6: raise MachineryError("too few clean harmonic models")
    ctx.count("harmonic-models", used)
