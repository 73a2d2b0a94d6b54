"""The documented parameter distributions: quantile functions, distribution functions, random valid bounds.
Written from the documentation only (math + statistics.NormalDist; no scipy)."""
import math
from statistics import NormalDist

ND = NormalDist()
DISTS = ["unif", "triang", "norm", "truncnorm", "lognorm", "logunif", "weibull"]


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def zq(u):
    return -math.inf if u <= 0 else math.inf if u >= 1 else ND.inv_cdf(u)


def Q(dist, b, u):
    """quantile function"""
    if dist == "unif":
        return b[0] + u * (b[1] - b[0])
    if dist == "triang":
        lo, hi, c = b if len(b) == 3 else (0.0, b[0], b[1])
        return lo + (hi - lo) * (math.sqrt(u * c) if u < c else 1 - math.sqrt((1 - u) * (1 - c)))
    if dist == "logunif":
        return math.exp(math.log(b[0]) * (1 - u) + math.log(b[1]) * u)
    if dist == "norm":
        return b[0] + b[1] * zq(u)
    if dist == "lognorm":
        return math.exp(b[0] + b[1] * zq(u)) if 0 < u < 1 else (0.0 if u <= 0 else math.inf)
    if dist == "weibull":
        loc = b[2] if len(b) == 3 else 0.0
        return loc + (b[1] * (-math.log1p(-u)) ** (1 / b[0]) if u < 1 else math.inf)
    if dist == "truncnorm":
        lo, hi, mu, sd = b
        if u <= 0: return lo
        if u >= 1: return hi
        za, zb = (lo - mu) / sd, (hi - mu) / sd
        if za > 0:    # work in the lower tail for accuracy
            a, z = phi(-za), phi(-zb)
            return mu - sd * zq(a + u * (z - a))
        a, z = phi(za), phi(zb)
        return mu + sd * zq(a + u * (z - a))
    raise KeyError(dist)


def F(dist, b, x):
    """distribution function"""
    if dist == "unif":
        return (x - b[0]) / (b[1] - b[0])
    if dist == "triang":
        lo, hi, c = b if len(b) == 3 else (0.0, b[0], b[1])
        t = (x - lo) / (hi - lo)
        if t < c: return t * t / c
        return 1 - (1 - t) ** 2 / (1 - c)
    if dist == "logunif":
        return (math.log(x) - math.log(b[0])) / (math.log(b[1]) - math.log(b[0]))
    if dist == "norm":
        return phi((x - b[0]) / b[1])
    if dist == "lognorm":
        return phi((math.log(x) - b[0]) / b[1])
    if dist == "weibull":
        loc = b[2] if len(b) == 3 else 0.0
        return -math.expm1(-((x - loc) / b[1]) ** b[0])
    if dist == "truncnorm":
        lo, hi, mu, sd = b
        za, zb, z = (lo - mu) / sd, (hi - mu) / sd, (x - mu) / sd
        if za > 0:
            return (phi(-za) - phi(-z)) / (phi(-za) - phi(-zb))
        return (phi(z) - phi(za)) / (phi(zb) - phi(za))
    raise KeyError(dist)


def bounds(dist, rnd):
    """random valid bounds"""
    r = rnd.choice
    if dist == "unif":
        lo = r([0.0, -1.0, -7.5, 2.0, 0.01, 100]); return [lo, lo + r([1.0, 0.5, 3, 1e-3, 250.0])]
    if dist == "triang":
        if rnd.random() < .15: return [r([1.0, 3.0, 10.0]), r([0.0, 0.25, 0.5, 0.9])]
        lo = r([0.0, -2.0, 1.0, -7.5, 10]); return [lo, lo + r([1.0, 2.0, 5, 0.25]), r([0.0, 0.1, 0.25, 0.5, 0.75, 0.9])]
    if dist == "norm":
        return [r([0.0, -3.0, 10.0, 1e3]), r([1.0, 0.1, 2.5, 10])]
    if dist == "lognorm":
        return [r([0.0, -1.0, 2.0]), r([1.0, 0.25, 0.5, 2])]
    if dist == "logunif":
        lo = r([1.0, 0.1, 1e-4, 5]); return [lo, lo * r([2.0, 10.0, 1e3, 1.5])]
    if dist == "weibull":
        b = [r([0.5, 1.0, 1.5, 3]), r([1.0, 2.0, 0.5, 10])]
        return b + ([r([0.0, 1.0, -5.0, 100.0])] if rnd.random() < .5 else [])
    if dist == "truncnorm":
        lo = r([0.0, -1.0, -3.0, 2.0]); return [lo, lo + r([1.0, 2.0, 4.0]), r([0.0, 0.5, 1.0]), r([1.0, 0.5, 2.0])]
    raise KeyError(dist)


LABELS = [["z", "a", "m", "g1", "g10", "g", "q", "b", "c9", "c", "d", "e"],
          ["g10", "g1", "G", "g", "x2", "x1", "x12", "k", "l", "0", "1", "2"]]
LONG = "the hydraulic conductivity of the "
LABELS.append([LONG + x for x in ("z", "a", "m", "g1", "g10", "g", "q", "b", "c9", "c", "d", "e")])
NAMES = [lambda D: [f"x{D - j}" for j in range(D)], lambda D: [f"x{j + 1}" for j in range(D)], lambda D: ["b", "a", "B", "ab", "a b", "x10", "x1", "q", "w", "e", "r", "t", "y"][:D] if D <= 13 else [f"p{j * 7 % D}_{j}" for j in range(D)],
         lambda D: [f"{LONG}{'upper' if j % 2 else 'lower'} layer {D - j}" for j in range(D)]]


def problem(rnd, D, grp=None, dists=None):
    """dists: None, "mix" or a list"""
    p = {"num_vars": D, "names": rnd.choice(NAMES)(D)}
    if grp is not None:
        L = rnd.choice(LABELS)
        p["groups"] = [L[g] if g < len(L) else f"u{g}" for g in grp]
    if dists == "mix":
        dists = [rnd.choice(DISTS) for _ in range(D)]
    if dists:
        p["dists"] = list(dists)
        p["bounds"] = [bounds(d, rnd) for d in dists]
    else:
        p["bounds"] = [bounds("unif", rnd) for _ in range(D)]
    return p


def unit(p, X):
    """unit-interval image of a sample, parameter by parameter"""
    ds = p.get("dists") or ["unif"] * p["num_vars"]
    return [[F(d, b, float(x)) for d, b, x in zip(ds, p["bounds"], row)] for row in X]


def scale(p, U):
    ds = p.get("dists") or ["unif"] * p["num_vars"]
    return [[Q(d, b, float(u)) for d, b, u in zip(ds, p["bounds"], row)] for row in U]
