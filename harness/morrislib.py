"""Projection of Morris designs to grid levels, by each distribution's own quantile function."""
import math
from statistics import NormalDist
import numpy as np

ND = NormalDist()
LABELS = [["z", "a", "m", "g1", "g10", "g", "q", "b", "c9", "c", "d", "e"],
          ["g10", "g1", "G", "g", "x2", "x1", "x12", "k", "l", "0", "1", "2"]]
FINITE = {"unif": [-1.5, 4.0], "triang": [1.0, 3.0, 0.25], "logunif": [0.5, 8.0], "truncnorm": [-1.0, 2.0, 0.5, 1.0]}


def Q(dist, b, u):
    if dist == "unif":
        return b[0] + u * (b[1] - b[0])
    if dist == "triang":
        lo, hi, c = b
        return lo + (hi - lo) * (math.sqrt(u * c) if u < c else 1 - math.sqrt((1 - u) * (1 - c)))
    if dist == "logunif":
        return b[0] * (b[1] / b[0]) ** u
    if dist == "truncnorm":
        lo, hi, mu, sd = b
        a, z = ND.cdf((lo - mu) / sd), ND.cdf((hi - mu) / sd)
        q = a + u * (z - a)
        return lo if u <= 0 else hi if u >= 1 else mu + sd * ND.inv_cdf(q)
    raise KeyError(dist)


def problem(D, grp, style, dists=None):
    p = {"num_vars": D, "names": [f"x{D - j}" for j in range(D)]}
    if grp is not None:
        p["groups"] = [LABELS[style % 2][g] for g in grp]
    if dists:
        p["dists"] = list(dists)
        p["bounds"] = [list(FINITE[d]) for d in dists]
    else:
        p["bounds"] = [[0.0, 1e-5] if j % 2 else [0.0, 1e6 * (j + 1)] for j in range(D)] if style % 7 == 6 else [[0.0, 1.0]] * D if style % 3 == 0 else [[-2.0 - j, 6.0 + 2 * j] for j in range(D)] if style % 3 == 1 else [[1e-3 * (j + 1), 2e-3 * (j + 1)] for j in range(D)]
    return p


def grid(p, lv):
    """level values of every parameter"""
    ds = p.get("dists") or ["unif"] * p["num_vars"]
    return [[Q(d, b, k / (lv - 1)) for k in range(lv)] for d, b in zip(ds, p["bounds"])]


def levels(X, p, lv):
    X = np.asarray(X, float)
    g = grid(p, lv)
    out = np.full(X.shape, -1, int)
    for j in range(min(X.shape[1], len(g))):
        gj = np.array(g[j]); w = abs(gj[-1] - gj[0])
        d = np.abs(X[:, [j]] - gj[None, :])
        k = d.argmin(1)
        ok = d[np.arange(len(k)), k] <= 1e-7 * w
        out[:, j] = np.where(ok, k, -1)
    return out.tolist()
