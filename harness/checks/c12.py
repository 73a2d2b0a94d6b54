"""C12: finite difference designs and DGSM measures (spec/FiniteDiff.tla)."""
import copy
from fractions import Fraction as Fr
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import finite_diff
from SALib.analyze import dgsm
import distlib


def fr(x):
    f = Fr(x).limit_denominator(10**6)
    return [f.numerator, f.denominator]


def mirror(X, Y, D, rng):
    s = D + 1
    b = Y[::s]
    vi, sd, dg = [], [], []
    for j in range(D):
        q = ((Y[j + 1::s] - b) / (X[j + 1::s, j] - X[::s, j])) ** 2
        vi.append(q.mean()); sd.append(math.sqrt(((q - q.mean()) ** 2).mean()))
        dg.append(q.mean() * rng[j] ** 2 / (((b - b.mean()) ** 2).mean() * math.pi ** 2))
    return vi, sd, dg


def run(ctx):
    ctx.neighbours(finite_diff, dgsm)
    big = ctx.thorough
    ctx.model("MCFiniteDiff", f"SPECIFICATION Spec\nCONSTANTS\n NB = {3 if big else 2}\nINVARIANTS InBounds OneAtATime StepBound\nCHECK_DEADLOCK FALSE\n", cover=["BaseRow", "Perturb"])
    rnd, g = ctx.rnd, ctx.nprng
    # ---- designs, exact: base points are dyadic
    cases, meta = [], []
    for i in range(40 if big else 18):
        D = rnd.randint(1, 6); N = rnd.choice([1, 2, 3, 5, 8, 16, 30]); sk = rnd.choice([1, 3, 16, 33, 64]) if i % 6 else rnd.choice([1000, 1024, 2047, 5000])
        den = 1
        while den < N + sk: den *= 2
        lim = [rnd.choice([(Fr(0), Fr(1)), (Fr(-3), Fr(2)), (Fr(-5), Fr(-1)), (Fr(1, 2), Fr(7, 2)), (Fr(-1, 2), Fr(1, 4)), (Fr(10), Fr(11))]) for _ in range(D)]
        d = rnd.choice([Fr(1, 100), Fr(1, 10), Fr(1, 2), Fr(2), Fr(1, 1000), Fr(-1, 50)])
        p = dict(num_vars=D, names=[f"x{j}" for j in range(D)], bounds=[[float(a), float(b)] for a, b in lim])
        if i % 3 == 1: p["dists"] = ["unif"] * D
        mk = (lambda q: ProblemSpec(q)) if i % 4 == 1 else (lambda q: q)
        desc = dict(problem=p, N=N, delta=str(d), skip_values=sk)
        # the base points: an (N, delta=0-like) projection of the recorded design itself
        X = ctx.call(finite_diff.sample, mk(copy.deepcopy(p)), N, delta=float(d), seed=i, skip_values=sk)
        if is_err(X) or X.shape != (N * (D + 1), D):
            ctx.bad("valid-request-fails", desc, X if is_err(X) else X.shape)
            if ctx.full: return
            continue
        U = [[(Fr(float(x)) - a) / (b - a) * den for x, (a, b) in zip(r, lim)] for r in X[::D + 1]]
        if any(abs(v - round(v)) > Fr(1, 10**6) or not 0 <= round(v) <= den for r in U for v in r):
            ctx.bad("base-not-a-sequence-point", desc, X[::D + 1][:2]); continue
        cases.append(dict(kind="design", u=[[int(round(v)) for v in r] for r in U], den=den, lim=[[fr(a), fr(b)] for a, b in lim], d=fr(d)))
        meta.append((desc, X)); ctx.samples += len(X)
    for (desc, X), e in zip(meta, ctx.oracle("FiniteDiffOracle", cases)):
        ctx.count("designs"); ctx.traces += 1
        E = np.array([[rat(q) for q in r] for r in e["rows"]])
        if E.shape != X.shape or not np.allclose(E, X, rtol=1e-10, atol=1e-12):
            k = int(np.argmax(np.abs(E - X).max(1)))
            ctx.bad("design-row", dict(desc, row=k), f"expected {E[k].tolist()}, got {X[k].tolist()}")
            if ctx.full: return
    # ---- designs with other distributions: row kinds
    cases, meta = [], []
    for i in range(30 if big else 12):
        D = rnd.randint(1, 6); N = rnd.choice([2, 5, 16])
        p = distlib.problem(rnd, D, None, "mix")
        d = rnd.choice([0.01, 0.1, 0.5, 3.0])
        X = ctx.call(finite_diff.sample, copy.deepcopy(p), N, d, seed=1) if i % 2 else ctx.call(finite_diff.sample, copy.deepcopy(p), N, delta=d)
        desc = dict(problem=p, N=N, delta=d)
        if is_err(X): ctx.bad("valid-request-fails", desc, X); continue
        codes = []
        for r, row in enumerate(X):
            base = X[r - r % (D + 1)]; c = []
            for j in range(D):
                lo, hi = distlib.Q(p["dists"][j], p["bounds"][j], 0), distlib.Q(p["dists"][j], p["bounds"][j], 1)
                want = min(max(base[j] * (1 + d), lo), hi)
                moved = r % (D + 1) == j + 1
                c.append(1 if close(row[j], want, 1e-9, 1e-9) and (moved or row[j] != base[j]) else 0 if row[j] == base[j] else 2)
            codes.append(c)
        cases.append(dict(kind="codes", D=D, N=N, codes=codes)); meta.append(desc)
        inside = all(distlib.Q(p["dists"][j], p["bounds"][j], 0) - 1e-9 <= x <= distlib.Q(p["dists"][j], p["bounds"][j], 1) + 1e-9 for row in X for j, x in enumerate(row))
        if not inside: ctx.bad("outside-bounds", desc)
    bad = copy.deepcopy(next(c for c in cases if c["D"] >= 2)); bad["codes"][1][1] = 1
    for c, m, v in zip(cases, meta, ctx.trace("FiniteDiffOracle", cases, selftest=[(bad, "row-kind")])):
        ctx.count("dist-designs")
        if not v["ok"]: ctx.bad(v["clause"], m, v["at"])
    # ---- measures
    cases, meta = [], []
    for i in range(60 if big else 26):
        D = rnd.randint(1, 4); N = rnd.randint(2, 4)
        rows, y = [], []
        rng = [Fr(rnd.choice([1, 2, 3, 5, 6])) for _ in range(D)]
        for b in range(N):
            base = [Fr(rnd.randint(-4, 4)) for _ in range(D)]
            rows.append(base); y.append(rnd.randint(-4, 4))
            for j in range(D):
                r = list(base); r[j] += rnd.choice([Fr(1), Fr(2), Fr(1, 2), Fr(-1), Fr(-2)]); rows.append(r); y.append(y[b * (D + 1)] + rnd.randint(-4, 4))
        if len(set(y[::D + 1])) == 1: y[0] += 1
        cases.append(dict(kind="measure", D=D, N=N, X=[[fr(x) for x in r] for r in rows], y=y, range=[fr(x) for x in rng]))
        meta.append((rows, y, rng))
    res = ctx.oracle("FiniteDiffOracle", cases)
    def cmp(desc, p, X, Y, want, i):
        form = i % 4
        XX = [X, np.asfortranarray(X), np.repeat(X, 2, 0)[::2], X][form]
        YY = np.repeat(Y, 2)[::2] if form == 1 else Y
        Si = ctx.call(dgsm.analyze, ProblemSpec(copy.deepcopy(p)) if form == 2 else copy.deepcopy(p), XX, YY, num_resamples=5, seed=i)
        if is_err(Si): ctx.bad("valid-request-fails", desc, Si); return
        if list(Si["names"]) != list(p["names"]): ctx.bad("names", desc, Si["names"])
        for key, w in zip(("vi", "vi_std", "dgsm"), want):
            if len(Si[key]) != len(w): ctx.bad("entries", desc, Si); return
            for j in range(len(w)):
                if not close(Si[key][j], w[j], 1e-8, 1e-8):
                    ctx.bad(key, dict(desc, parameter=j), f"expected {w[j]}, got {Si[key][j]}"); return
    for i, ((rows, y, rng), c, e) in enumerate(zip(meta, cases, res)):
        D = c["D"]; X = np.array([[float(x) for x in r] for r in rows]); Y = np.array(y, float if i % 3 else int)
        want = ([rat(q) for q in e["vi"]], [math.sqrt(rat(q)) for q in e["var"]], [rat(q) / math.pi ** 2 for q in e["dg"]])
        m = mirror(X, Y.astype(float), D, [float(r) for r in rng])
        for a, b in zip(m, want):
            if not np.allclose(a, b, rtol=1e-9, atol=1e-9): raise MachineryError("mirror disagrees with the specification")
        p = dict(num_vars=D, names=[f"x{D-j}" for j in range(D)], bounds=[[-2.0 - j, -2.0 - j + float(r)] for j, r in enumerate(rng)])
        ctx.count("measures"); ctx.traces += 1
        cmp(dict(problem=p, X=X, Y=Y), p, X, Y, want, i)
        if ctx.full: return
    for i in range(20 if big else 10):     # designs of the sampler, arbitrary outputs
        D = rnd.randint(1, 9); N = rnd.choice([4, 32, 100])
        p = distlib.problem(rnd, D, None, [rnd.choice(["unif", "logunif", "truncnorm"]) for _ in range(D)] if i % 2 else None)
        X = ctx.call(finite_diff.sample, copy.deepcopy(p), N, delta=0.05)
        if is_err(X): ctx.bad("valid-request-fails", dict(problem=p), X); continue
        w = g.normal(size=D); Y = np.sin(X / (1 + np.abs(X).max(0)) * 3) @ w + g.random(len(X)) * .1
        ctx.count("sampled-measures")
        cmp(dict(problem=p, N=N), p, X, Y, mirror(X, Y, D, [b[1] - b[0] for b in p["bounds"]]), i)
        if ctx.full: return
    for D in (1, 2, 4):
        p = dict(num_vars=D, names=[f"x{j}" for j in range(D)], bounds=[[0, 1]] * D)
        for extra in range(1, D + 1):
            n = 6 * (D + 1) + extra
            ctx.count("domain")
            Si = ctx.call(dgsm.analyze, p, g.random((n, D)), g.random(n), num_resamples=2)
            if not is_err(Si): ctx.bad("length-domain", dict(D=D, n=n), Si)
