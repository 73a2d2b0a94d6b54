"""C25: unscrambled Sobol' points and skipping (spec/DigitalSeq.tla, table spec/data/joekuo.txt)."""
import copy, warnings
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import saltelli, sobol, finite_diff
import SALib.sample.sobol_sequence as seqmod


def table(dims):
    out = []
    with open(os.path.join(SPEC, "data", "joekuo.txt")) as f:
        for k, l in enumerate(f):
            if k == dims: break
            r = [int(x) for x in l.split()]
            out.append(dict(s=r[0], a=r[1], m=r[2:]))
    return out


def problem(rnd, D, grp=None, unit=True):
    p = dict(num_vars=D, names=[f"p{k}" for k in range(D)],
             bounds=[[0, 1] if unit else [rnd.choice([-8, 0, 3, 0.5]), rnd.choice([4, 7.5, 100])] for _ in range(D)])
    if grp is not None: p["groups"] = [f"g{g}" for g in grp]
    return p


def base(p, X, N, so):
    """A and B rows of a design (its first and last row of every block)"""
    if so is None:
        b = p["num_vars"] + 1
        return X[::b] if X.shape == (N * b, p["num_vars"]) else None
    g = len(dict.fromkeys(p["groups"])) if p.get("groups") else p["num_vars"]
    if g == 1: g = p["num_vars"]
    b = (2 * g + 2) if so else g + 2
    if X.shape != (N * b, p["num_vars"]):
        return None
    return np.hstack([X[0::b], X[b - 1::b]])


def draw(which, p, N, so, skip, scramble=False, seed=None):
    if which == "finite_diff":
        return finite_diff.sample(p, N, seed=seed, **({} if skip is None else dict(skip_values=skip)))
    if which == "saltelli":
        return saltelli.sample(p, N, calc_second_order=so, **({} if skip is None else dict(skip_values=skip)))
    return sobol.sample(p, N, calc_second_order=so, scramble=scramble, seed=seed, **({} if skip is None else dict(skip_values=skip)))


def user_warnings(ctx, fn):
    """(result or Err, number of warnings other than deprecation)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = fn()
        except Exception as e:
            return Err(e), []
    return r, [str(x.message).strip()[:80] for x in w if issubclass(x.category, UserWarning) and not issubclass(x.category, DeprecationWarning)]


def run(ctx):
    ctx.neighbours(saltelli, sobol, finite_diff)
    big = ctx.thorough
    rnd = ctx.rnd
    L, dims = (6, 20) if big else (5, 10)
    inv = "INVARIANTS Closed Equi Net2 Distinct TableInv\n"
    cfg = lambda rule, inv, l=L, d=dims: f'SPECIFICATION Spec\nCONSTANTS\n L = {l}\n DIMS = {d}\n RULE = "{rule}"\n{inv}CHECK_DEADLOCK FALSE\n'
    ctx.model("MCDigitalSeq", cfg("gray", inv), cover=["Advance"])
    for rule in ("next", "binary", "stuck"):
        ok, _ = ctx.model("MCDigitalSeq", cfg(rule, "INVARIANTS Closed\n", 4, 3), expect_ok=False)
        if ok: raise MachineryError(f"wrong rule {rule} not refuted")

    # ---- the numbers themselves
    jobs, cases = [], []
    def add(which, D, N, skip, so=False, grp=None, unit=True, spec=False):
        jobs.append(dict(which=which, D=D, N=N, skip=skip, so=so, grp=grp, unit=unit, spec=spec))
        s = skip if skip is not None else (0 if which == "sobol" else None)
        if s is None:
            s = 1024 if which == "finite_diff" else max(16, 1 << (N - 1).bit_length())
        bits = max(1, (N + s - 1).bit_length())
        cases.append(dict(kind="points", table=table(D if so is None else 2 * D), bits=bits, start=s, count=N))
    for D in (1, 2, 3, 7, 19, 60):     # finite difference base points (so = None)
        add("finite_diff", D, rnd.choice([1, 4, 9]), None, so=None)
        add("finite_diff", D, rnd.choice([1, 5, 16]), rnd.choice([0, 1, 7, 100, 1000, 3001]), so=None, unit=D % 2 == 0, spec=D == 3)
    for which in ("saltelli", "sobol"):
        for D in (1, 2, 3, 5, 8, 13, 20):
            add(which, D, 16, 16)
            add(which, D, rnd.choice([4, 8, 32]), None)
        for D in (40, 120, 400) + ((1500,) if big else ()):
            add(which, D, 8, rnd.choice([8, 16, 20]))
            add(which, D, 32 if D < 100 else 8, None)
        for N in list(range(1, 12)) + [15, 17, 31, 33, 64, 100, 127, 128]:
            add(which, rnd.randint(1, 3), N, rnd.choice([None, 0, 1, 2, 3, 5, N, 2 * N, 31, 64, 100]), so=rnd.random() < .4)
        for _ in range(80 if big else 20):
            D = rnd.randint(1, 9)
            grp = [rnd.randrange(rnd.randint(1, D)) for _ in range(D)] if rnd.random() < .5 else None
            add(which, D, rnd.choice([1, 2, 3, 4, 7, 8, 16, 21, 32]), rnd.choice([None, 0, 1, 4, 7, 8, 16, 24, 50, 64, 128, 200]),
                so=rnd.random() < .5, grp=grp, unit=rnd.random() < .6, spec=rnd.random() < .25)
        for skip in (255, 1000, 1024, 4095, 4096):
            add(which, 2, 4, skip)
        add(which, 1, 512 if big else 256, None)
        # late dimensions have long initial numbers: reach the bits they set
        add(which, 100, 16, 2040); add(which, 400, 8, 1020); add(which, 200, 6, rnd.choice([511, 1000, 4090]))
        if big: add(which, 300, 16, 1 << 15); add(which, 1200, 8, (1 << 16) - 4)
        if big:
            add(which, 4, 2048, None); add(which, 2, 16, 1 << 15); add(which, 2, 5, 100003)
    add("sobol", 2, 8, 1 << 20); add("sobol", 3, 7, 1000003)
    if big: add("sobol", 10600, 2, 0); add("saltelli", 10600, 2, 3)
    exp = ctx.oracle("DigitalOracle", cases, par=6)
    for j, c, e in zip(jobs, cases, exp):
        if ctx.full: return
        p = problem(rnd, j["D"], j["grp"], j["unit"])
        q = ProblemSpec(copy.deepcopy(p)) if j["spec"] else copy.deepcopy(p)
        desc = dict(j, problem=p if j["D"] < 20 else f"D={j['D']}")
        X = ctx.call(draw, j["which"], q, j["N"], j["so"], j["skip"])
        ctx.count("designs"); ctx.samples += j["N"]
        if is_err(X):
            ctx.bad("valid-request-fails", desc, X); continue
        B = base(p, X, j["N"], j["so"])
        if B is None:
            ctx.bad("shape", desc, X.shape); continue
        want = np.array(e["pts"], float).T / (1 << c["bits"])
        lo = np.array([b[0] for b in p["bounds"]] * 2, float); hi = np.array([b[1] for b in p["bounds"]] * 2, float)
        if j["so"] is None: lo, hi = lo[:j["D"]], hi[:j["D"]]
        want = want if j["unit"] else lo + want * (hi - lo)
        tol = 0 if j["unit"] else 1e-12 * np.maximum(1, np.abs(lo) + np.abs(hi))
        if not np.all(np.abs(B - want) <= tol):
            r, k = [int(v[0]) for v in np.where(~(np.abs(B - want) <= tol))]
            ctx.bad("not-the-sequence", desc, f"base point {r}, column {k} of 2D: got {B[r, k]!r}, sequence point {c['start'] + r} is {want[r, k]!r}")
        ctx.traces += 1

    # ---- the sequence generator itself
    jobs, cases = [], []
    for D, N in [(1, 1), (1, 2), (2, 3), (5, 64), (33, 20), (3, 1000), (700, 12)]:
        jobs.append((D, N)); cases.append(dict(kind="points", table=table(D), bits=max(1, (N - 1).bit_length()), start=0, count=N))
    for (D, N), c, e in zip(jobs, cases, ctx.oracle("DigitalOracle", cases, par=3)):
        X = ctx.call(seqmod.sample, N, D); desc = dict(which="sobol_sequence", D=D, N=N)
        ctx.count("generator")
        if is_err(X) or X.shape != (N, D): ctx.bad("valid-request-fails", desc, X if is_err(X) else X.shape); continue
        want = np.array(e["pts"], float).T / (1 << c["bits"])
        if not np.array_equal(X, want): ctx.bad("not-the-sequence", desc, np.argwhere(X != want)[0])
    # every dimension that has direction numbers is served, and only those
    full = table(10 ** 6); M = len(full)
    N = rnd.randint(33, 60); last = 64
    e = ctx.oracle("DigitalOracle", [dict(kind="points", table=full[-last:], bits=max(1, (N - 1).bit_length()), start=0, count=N)], par=1)[0]
    X = ctx.call(seqmod.sample, N, M); desc = dict(which="sobol_sequence", D=M, N=N)
    ctx.count("dimension-limit")
    if is_err(X): ctx.bad("valid-request-fails", desc, X)
    elif X.shape != (N, M) or not np.array_equal(X[:, -last:], np.array(e["pts"], float).T / (1 << max(1, (N - 1).bit_length()))):
        ctx.bad("not-the-sequence", desc, "last dimensions")
    del X
    for D in (M + 1, M + rnd.randint(2, 500)):
        X = ctx.call(seqmod.sample, 2, D)
        if not is_err(X): ctx.bad("too-many-dimensions-accepted", dict(which="sobol_sequence", D=D, N=2), X.shape)
    # ---- consecutive points: run with skip s = tail of the run without (also scrambled, any seed)
    for k in range(80 if big else 24):
        which = ("sobol", "saltelli")[k % 2]
        D, N, s = rnd.randint(1, 6), rnd.choice([1, 2, 5, 8, 16, 30]), rnd.choice([1, 2, 3, 4, 8, 15, 16, 40, 64])
        scr = which == "sobol" and k % 4 == 0
        seed = rnd.randrange(10 ** 6) if scr else None
        p = problem(rnd, D, unit=k % 3 > 0)
        desc = dict(which=which, problem=p, N=N, skip=s, scramble=scr, seed=seed)
        a = ctx.call(draw, which, copy.deepcopy(p), N, True, s, scr, seed)
        b = ctx.call(draw, which, copy.deepcopy(p), N + s, True, 0, scr, seed)
        if is_err(a) or is_err(b):
            ctx.bad("valid-request-fails", desc, a if is_err(a) else b); continue
        if not np.array_equal(a, b[s * (2 * D + 2):]) and not np.array_equal(a, b[s * (len(b) // (N + s)):]):
            ctx.bad("skip-not-consecutive", desc)
        ctx.count("skip-pairs")

    # ---- warnings and refusals
    rules = []
    for which in ("saltelli", "sobol"):
        for N in (1, 2, 3, 4, 5, 6, 8, 10, 16, 24, 31, 32, 33, 64):
            for skip in (None, 0, 1, 2, 3, 4, 7, 8, 12, 16, 17, 32, 64, 100):
                rules.append(dict(kind="rule", sampler=which, n=N, skip=skip or 0, given=skip is not None))
    for c, e in zip(rules, ctx.oracle("DigitalOracle", rules, par=2)):
        if c["n"] == 1: continue
        p = problem(rnd, rnd.randint(1, 3))
        X, w = user_warnings(ctx, lambda: draw(c["sampler"], p, c["n"], False, c["skip"] if c["given"] else None))
        ctx.count("warning-rules")
        if is_err(X):
            ctx.bad("valid-request-fails", c, X)
        elif bool(w) != e["warns"]:
            ctx.bad("unbalanced-without-warning" if e["warns"] else "balanced-with-warning", dict(c), w)
        if ctx.full: return
    for which in ("saltelli", "sobol"):
        for skip in (-1, -16, 2.5, -0.5, 16.0, "8", [4]):
            for N in (4, 16):
                p = problem(rnd, 2)
                X, w = user_warnings(ctx, lambda: draw(which, p, N, True, skip))
                ctx.count("invalid-skips")
                if not is_err(X):
                    ctx.bad("invalid-skip-accepted", dict(sampler=which, N=N, skip=skip), X.shape)
