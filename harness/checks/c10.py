"""C10: RBD-FAST (spec/RbdFast.tla)."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.analyze import rbd_fast
import distlib


def mirror(x, y, M):
    """the specification's value on arbitrary data (validated against the oracle)"""
    n = len(y)
    o = sorted(range(n), key=lambda i: x[i])
    o = o[::2] + o[1::2][::-1]
    k = np.arange(n); z = np.asarray(y, float)[o]; z = z - z.mean()
    H = n // 2
    P = []
    for f in range(1, H + 1):
        c = np.dot(z, np.exp(-2j * np.pi * f * k / n))
        P.append(abs(c) ** 2 * (1 if 2 * f == n else 2))
    s = sum(P[:M]) / sum(P)
    lam = 2 * M / n
    return s - lam / (1 - lam) * (1 - s)


def run(ctx):
    ctx.neighbours(rbd_fast)
    big = ctx.thorough
    ctx.model("MCRbdFast", f"SPECIFICATION Spec\nCONSTANTS\n NMAX = {7 if big else 6}\nINVARIANTS EveryRowOnce Triangle ByValueOnly Correction\nCHECK_DEADLOCK FALSE\n", cover=["Walk", "Shuffle"])
    rnd, g = ctx.rnd, ctx.nprng
    cases, X_, P_ = [], [], []
    for i in range(90 if big else 36):
        n = rnd.choice([6, 7, 8, 9, 10, 13, 21, 32, 41, 64, 90, 100, 101]); D = rnd.randint(2, 6)
        M = rnd.randint(1, min(12, (n // 2 - 1) // 2))   # the bootstrap halves the data
        p = distlib.problem(rnd, D, None if i % 3 else [rnd.randrange(2) for _ in range(D)], None if i % 2 else "mix")
        U = np.array([g.permutation(n) for _ in range(D)]).T / n + g.random((n, D)) / n * .8 + .05 / n
        X = np.array(distlib.scale(p, U))
        for j in range(D):
            rk = (np.argsort(np.argsort(X[:, j])) + 1).tolist()
            fs = sorted(set(rnd.sample(range(1, n // 2 + 1), min(n // 2, rnd.randint(1, 6)))) | {M} | ({M + 1} if M + 1 <= n // 2 else set()) | ({n // 2} if i % 2 else set()))
            sp = [[f, rnd.randint(1, 5)] for f in fs]
            cases.append(dict(n=n, M=M, rk=rk, sp=[[f, a * a] for f, a in sp])); X_.append(X); P_.append((p, j, sp))
    res = ctx.oracle("RbdOracle", cases)
    ymem = {}
    for i, (c, e, X, (p, j, sp)) in enumerate(zip(cases, res, X_, P_)):
        n, M, D = c["n"], c["M"], p["num_vars"]
        k = np.arange(n)
        z = sum(a * np.cos(2 * np.pi * f * k / n + (0 if 2 * f == n else rnd.random() * 7)) for f, a in sp) + rnd.choice([0.0, 4.0, -30.0])
        Y = np.empty(n); Y[np.array(e["order"]) - 1] = z
        if not close(mirror(X[:, j], Y, M), rat(e["s1"]), 1e-8, 1e-8):
            raise MachineryError("mirror disagrees with the specification")
        want = [mirror(X[:, q], Y, M) for q in range(D)]
        want[j] = rat(e["s1"])
        Xf = [X, np.asfortranarray(X), np.repeat(X, 2, axis=0)[::2]][i % 3]
        Yf = Y if i % 4 else np.repeat(Y, 2)[::2]
        q = ProblemSpec(copy.deepcopy(p)) if i % 7 == 2 else copy.deepcopy(p)
        R_ = ctx.call(rbd_fast.analyze, q, Xf, Yf, M=M, num_resamples=2, seed=i)
        desc = dict(problem=p, M=M, by=j, spectrum=sp, X=X if n <= 12 else None, Y=Y if n <= 12 else None, n=n)
        ctx.count("prescribed"); ctx.traces += 1
        if is_err(R_):
            ctx.bad("valid-request-fails", desc, R_)
        else:
            if list(R_["names"]) != list(p["names"]) or len(R_["S1"]) != D: ctx.bad("entries", desc, R_)
            else:
                for q in range(D):
                    if not close(R_["S1"][q], want[q], 1e-7, 1e-7):
                        ctx.bad("S1", dict(desc, parameter=q), f"expected {want[q]}, got {R_['S1'][q]}"); break
        if ctx.full: return
        if i % 5 == 0 and not is_err(R_):      # invariances
            perm = g.permutation(n)
            X2 = X.copy(); X2[:, j] = np.argsort(np.argsort(X[:, j])) ** 3 * 2.0 - 7
            X3 = g.random(X.shape); X3[:, j] = X[:, j]
            p2 = copy.deepcopy(p); p2["bounds"] = [[-5, 5 + r] for r in range(D)]; p2.pop("dists", None)
            for what, pp, xx, yy, cols in (("row-order", p, X[perm], Y[perm], range(D)), ("monotone-transform", p, X2, Y, range(D)), ("other-columns", p, X3, Y, [j]), ("bounds", p2, X, Y, range(D))):
                Z = ctx.call(rbd_fast.analyze, copy.deepcopy(pp), xx, yy, M=M, num_resamples=2, seed=3)
                ctx.count("invariance")
                if is_err(Z) or any(not close(Z["S1"][q], R_["S1"][q], 1e-7, 1e-7) for q in cols):
                    ctx.bad("invariance-" + what, desc, Z)
    # default M
    p = dict(num_vars=2, names=["a", "b"], bounds=[[0, 1]] * 2); X = g.random((200, 2)); Y = X[:, 0] + g.random(200)
    A, B = ctx.call(rbd_fast.analyze, p, X, Y, seed=1), ctx.call(rbd_fast.analyze, p, X, Y, M=10, seed=1)
    if is_err(A) or is_err(B) or not np.allclose(A["S1"], B["S1"]) or not close(A["S1"][0], mirror(X[:, 0], Y, 10), 1e-8): ctx.bad("default-M", dict(n=200), (A, B))
