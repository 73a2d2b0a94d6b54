"""C01: Saltelli designs follow spec/Saltelli.tla."""
import copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import sobol as s_sobol, saltelli as s_saltelli

LABELS = [["z", "a", "m", "g1", "g10", "g", "q", "b", "c9", "c", "d", "e"],
          ["g10", "g1", "G", "g", "x2", "x1", "x12", "k", "l", "0", "1", "2"]]
DISTS = {"unif": [-1.5, 4.0], "norm": [1.0, 0.5], "lognorm": [0.0, 0.7], "triang": [1.0, 3.0, 0.25],
         "logunif": [0.5, 8.0], "truncnorm": [-1.0, 2.0, 0.5, 1.0], "weibull": [1.5, 2.0]}


def problem(D, grp, style, rnd, dists=None):
    names = [f"x{j+1}" for j in range(D)]
    p = {"num_vars": D, "names": names}
    if grp is not None:
        lab = LABELS[style % len(LABELS)]
        p["groups"] = [lab[g] for g in grp]
        if style % 5 == 3: p["groups"] = ["parameters of the hydraulic model: " + x for x in p["groups"]]
    if dists:
        p["dists"] = list(dists)
        p["bounds"] = [list(DISTS[d]) for d in dists]
    else:
        p["bounds"] = [[0.0, 1.0]] * D if style % 3 else [[-2.0 - j, 6.0 + 2 * j] for j in range(D)]
    return p


def record(X, N, D, G, so, lo, width, strata, colid):
    """project a real design to the trace of cell codes"""
    L = 2 * G + 2 if so else G + 2
    rows = []
    nb = X.shape[0] // L if L else 0
    for i in range(X.shape[0]):
        b = i // L
        a = X[b * L]
        bb = X[b * L + L - 1] if (b + 1) * L <= X.shape[0] else X[-1]
        eqa, eqb = X[i] == a, X[i] == bb
        rows.append([int(x) + 2 * int(y) for x, y in zip(eqa, eqb)])
    out = {"rows": rows, "strata": [], "colid": []}
    if X.shape[0] == N * L:
        base = np.hstack([X[0::L], X[L - 1::L]])
        if strata:
            u = (base - np.r_[lo, lo]) / np.r_[width, width]
            t = np.floor(u * N + 1e-9).astype(int)
            out["strata"] = t.T.tolist()
        if colid:
            u = (base - np.r_[lo, lo]) / np.r_[width, width]
            u = np.round(u, 9)
            ids = {}
            out["colid"] = [ids.setdefault(tuple(c), len(ids)) for c in u.T]
    return out


def run(ctx):
    ctx.neighbours(s_sobol, s_saltelli)
    big = ctx.thorough
    ctx.model("MCSaltelli", f"SPECIFICATION MCSpec\nCONSTANTS\n MaxD = {5 if big else 4}\n MaxN = {3 if big else 2}\n"
              "INVARIANTS TypeOK ExchangeWholeGroup FirstAppearanceOrder CountOK BlockShape\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n",
              cover=["EmitA", "EmitAB", "EmitBA", "EmitB"])
    rnd = ctx.rnd
    todo = []
    # every partition of small D (the model's initial states), both orders
    for D in range(1, 6 if big else 5):
        for gi, grp in enumerate([None] + rgs(D)):
            for so in (True, False):
                todo.append(dict(D=D, grp=grp, so=so, N=[4, 2, 8, 1][(gi + so) % 4], style=gi, dists=None))
    # larger problems, odd N, distributions, skips
    for r in range(120 if big else 36):
        D = rnd.randint(2, 12 if big else 9)
        grp = None if r % 4 == 0 else [rnd.randrange(rnd.randint(1, D)) for _ in range(D)]
        dists = [rnd.choice(list(DISTS)) for _ in range(D)] if r % 3 == 0 else None
        todo.append(dict(D=D, grp=grp, so=bool(r % 2), N=rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 32]), style=r, dists=dists))
    for N in (1, 2, 4, 8, 16, 32, 64):
        for D in (1, 2, 3):
            todo.append(dict(D=D, grp=None, so=False, N=N, style=1, dists=None, plain=True))
    # many parameters, few blocks; many blocks, few parameters
    for D in [rnd.randint(33, 64), rnd.randint(65, 128), rnd.randint(40, 90)] + ([rnd.randint(129, 300)] if big else []):
        for so in ((False, True) if D < 80 or big else (False,)):
            todo.append(dict(D=D, grp=None, so=so, N=2, style=1, dists=None))
        todo.append(dict(D=D, grp=[rnd.randrange(9) for _ in range(D)], so=True, N=2, style=1, dists=None))
    for D, N in ((1, 1024), (2, 512), (3, 256)) + (((1, 4096), (2, 2048)) if big else ()):
        todo.append(dict(D=D, grp=None, so=bool(D % 2), N=N, style=1, dists=None, plain=True))
    cases, meta = [], []
    for t in todo:
        D, grp, so, N = t["D"], t["grp"], t["so"], t["N"]
        for sampler in ("sobol", "saltelli"):
            variants = [("scr", {})]
            if sampler == "sobol":
                kw = dict(seed=rnd.randrange(1000), calc_second_order=so)
                if rnd.random() < .3 and not t.get("plain"):
                    kw["skip_values"] = rnd.choice([1, 3, 8, 64])
                if rnd.random() < .15 and not t.get("plain"):
                    kw.update(scramble=False, skip_values=64)
            else:
                kw = dict(calc_second_order=so)
                if rnd.random() < .4 and not t.get("plain"):
                    kw["skip_values"] = rnd.choice([16, 64, 128, 256])
            p = problem(D, grp, t["style"], rnd, t["dists"])
            asSpec = rnd.random() < .3
            pp = ProblemSpec(copy.deepcopy(p)) if asSpec else copy.deepcopy(p)
            fn = s_sobol.sample if sampler == "sobol" else s_saltelli.sample
            X = ctx.call(fn, pp, N, **kw)
            desc = dict(problem=p, N=N, sampler=sampler, kwargs=kw, as_spec=asSpec)
            if is_err(X):
                ctx.bad("valid-request-fails", desc, X); continue
            if X.ndim != 2 or X.shape[1] != D:
                ctx.bad("columns", desc, X.shape); continue
            g = list(range(D)) if grp is None else grp
            G = len(set(g)) if len(set(g)) > 1 else D
            skip = kw.get("skip_values", 0 if sampler == "sobol" else None)
            pow2 = N & (N - 1) == 0
            aligned = pow2 and (skip is None or skip % N == 0)
            unif = t["dists"] is None
            lo = np.array([b[0] for b in p["bounds"]]); w = np.array([b[1] - b[0] for b in p["bounds"]])
            scr = sampler == "sobol" and kw.get("scramble", True)
            rec = record(X, N, D, G, so, lo, w, strata=aligned and unif and (N <= 64 or D <= 3), colid=scr and unif and N >= 8)
            if not np.all(np.isfinite(X)):
                ctx.bad("finite", desc); continue
            case = dict(groups=[x + 1 for x in g], so=so, n=N, **rec)
            cases.append(case); meta.append(desc)
            ctx.count("designs"); ctx.samples += X.shape[0]
    # binding self-tests: corrupt one field of good traces
    good = next(c for c, m in zip(cases, meta) if len(c["rows"]) > 8 and c["strata"] and len(c["rows"][0]) >= 2 and len(set(c["groups"])) >= 2 and c["n"] >= 4)
    c1 = copy.deepcopy(good); k = next(i for i, r in enumerate(c1["rows"]) if 1 in r and 2 in r); c1["rows"][k][c1["rows"][k].index(2)] = 1
    c2 = copy.deepcopy(good); c2["rows"].pop()
    c3 = copy.deepcopy(good); c3["strata"][0][0] = c3["strata"][0][1]
    st = [(c1, "row-kind"), (c2, "missing-rows"), (c3, "stratified-column")]
    for v, m, c in zip(ctx.trace("SaltelliTrace", cases, selftest=st), meta, cases):
        if not v["ok"]:
            ctx.bad(v["clause"], m, f"row {v['at']}")
