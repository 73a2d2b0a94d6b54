"""The calls whose reproducibility C19 decides.  Run as a program it prints the digest of each seeded call
(used to compare processes with different hash seeds)."""
import copy, hashlib, json, os, sys
import numpy as np
from SALib.sample import sobol as ssob, latin, morris as smor, fast_sampler, ff as sff, finite_diff, saltelli
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, ff, pawn, rsa, discrepancy, hdmr, enhanced_hdmr
from SALib import ProblemSpec


def digest(r):
    h = hashlib.sha256()
    def go(x):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                if k in ("RT", "Em"): continue
                h.update(str(k).encode()); go(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x: go(y)
        elif isinstance(x, np.ma.MaskedArray): go(x.filled(np.nan).astype(float))
        elif isinstance(x, np.ndarray) and x.dtype != object: h.update(str(x.shape).encode()); h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, np.ndarray): go(x.tolist())
        else: h.update(repr(x).encode())
    go(r)
    return h.hexdigest()[:20]


P0 = dict(num_vars=3, names=["x2", "x10", "x1"], bounds=[[0, 1], [-1, 3], [2, 5]])
PG = dict(num_vars=4, names=["d", "c", "b", "a"], bounds=[[0, 1]] * 4, groups=["zz", "aa", "zz", "mm"])
PD = dict(num_vars=3, names=["u", "n", "t"], bounds=[[0, 1], [0, 2], [0, 4, .25]], dists=["unif", "norm", "triang"])


def data(p, n, s):
    r = np.random.default_rng(s); U = r.random((n, p["num_vars"])); b = np.array([x[:2] for x in p["bounds"]], float)
    X = b[:, 0] + U * (b[:, 1] - b[:, 0])
    return X, np.sin(3 * U[:, 0]) + U[:, 1] * U[:, -1] + .05 * r.random(n)


def calls():
    """name -> (kind, random, function of the seed); every call builds its own arguments"""
    C = {}
    def samp(name, f, p, *a, rand=True, **k):
        C[name] = ("sampler", rand, lambda seed: f(copy.deepcopy(p), *a, seed=seed, **k))
    for tag, p in (("", P0), ("-grp", PG), ("-dist", PD)):
        samp("sobol" + tag, ssob.sample, p, 8)
        samp("latin" + tag, latin.sample, p, 9)
        samp("morris" + tag, smor.sample, p, 10)
        samp("fast" + tag, fast_sampler.sample, p, 70)
    samp("sobol-noscramble", ssob.sample, P0, 8, rand=False, scramble=False)
    samp("sobol-skip", ssob.sample, P0, 8, calc_second_order=False, skip_values=8)
    samp("latin-large", latin.sample, P0, 500)
    samp("morris-opt", smor.sample, P0, 9, optimal_trajectories=4, rand=False)
    samp("morris-brute", smor.sample, P0, 8, num_levels=6, optimal_trajectories=3, local_optimization=False, rand=False)
    samp("fast-M2", fast_sampler.sample, P0, 40, M=2)
    samp("ff", sff.sample, P0, rand=False)
    samp("finite_diff", finite_diff.sample, P0, 8, rand=False)
    C["saltelli"] = ("sampler", False, lambda seed: saltelli.sample(copy.deepcopy(P0), 8))
    def an(name, f, mk, **k):
        def go(seed):
            p, a = mk(); return f(p, *a, seed=seed, **k)
        C["an-" + name] = ("analysis", False, go)
    sal = lambda p, d: (copy.deepcopy(p), (np.random.default_rng(4).normal(size=12 * (2 * d + 2)),))
    an("sobol", sobol.analyze, lambda: sal(P0, 3)); an("sobol-grp", sobol.analyze, lambda: sal(PG, 3), num_resamples=30, keep_resamples=True)
    C["an-sobol-par"] = ("analysis", False, lambda seed: sobol.analyze(*sal(P0, 3)[:1], *sal(P0, 3)[1], parallel=True, n_processors=2, seed=seed))
    def mor(p):
        X = smor.sample(copy.deepcopy(p), 9, seed=5); return copy.deepcopy(p), (X, np.sin(X).sum(1) + X[:, 0] * X[:, -1])
    an("morris", morris.analyze, lambda: mor(P0), num_resamples=50); an("morris-grp", morris.analyze, lambda: mor(PG), num_resamples=50, scaled=False)
    fy = lambda: (copy.deepcopy(P0), (lambda X: (np.sin(X[:, 0]) + X[:, 1] * X[:, 2],))(fast_sampler.sample(copy.deepcopy(P0), 100, seed=3)))
    an("fast", fast.analyze, fy, num_resamples=20)
    gd = lambda n, s=1: (lambda: (copy.deepcopy(P0), data(P0, n, s)))
    an("rbd_fast", rbd_fast.analyze, gd(120), num_resamples=20); an("delta", delta.analyze, gd(60), num_resamples=5); an("delta-delta", delta.analyze, gd(60), num_resamples=5, method="delta"); an("delta-sobol", delta.analyze, gd(60), num_resamples=5, method="sobol")
    def dg():
        X = finite_diff.sample(copy.deepcopy(P0), 10, seed=2); return copy.deepcopy(P0), (X, np.sin(X).sum(1))
    an("dgsm", dgsm.analyze, dg, num_resamples=30)
    def fy2():
        p = copy.deepcopy(P0); X = sff.sample(p, seed=1); return p, (X, X[:, 0] + X[:, 1] * X[:, 2])
    an("ff", ff.analyze, fy2, second_order=True)
    an("pawn", pawn.analyze, gd(80), S=5); an("discrepancy", discrepancy.analyze, gd(40)); an("hdmr", hdmr.analyze, gd(600), K=3, R=400)
    an("ehdmr", enhanced_hdmr.analyze, gd(300), max_order=2, poly_order=2, bootstrap=3)
    def rs(seed):
        p, a = gd(60)(); return rsa.analyze(p, *a, bins=5)
    C["an-rsa"] = ("analysis", False, rs)
    def spec(seed):
        sp = ProblemSpec(dict(names=["x2", "x1"], bounds=[[0, 1], [1, 2]], outputs=["A", "B"]))
        sp.sample_latin(60, seed=seed).evaluate(lambda X: np.stack([X[:, 0], X.sum(1)], 1)).analyze_delta(num_resamples=3, seed=seed)
        return [sp.samples, sp.results, sp.analysis]
    C["an-spec"] = ("analysis", False, spec)
    return C


if __name__ == "__main__":
    import warnings; warnings.simplefilter("ignore")
    out = {}
    for nm, (kind, rand, f) in calls().items():
        for s in (0, 42):
            try: out[f"{nm}/{s}"] = digest(f(s))
            except Exception as e: out[f"{nm}/{s}"] = repr(e)
    print(json.dumps(out))
