"""C27: requests outside the documented domain are refused, those inside answered (spec/Domain.tla)."""
import concurrent.futures as cf, multiprocessing as mp
from vlib import *
import numpy as np
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from SALib import ProblemSpec
from SALib.sample import sobol as s_sobol, saltelli, latin, fast_sampler, finite_diff, ff as s_ff
from SALib.sample import morris as s_morris
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, pawn, rsa, discrepancy, ff, hdmr, enhanced_hdmr
from SALib.plotting.morris import horizontal_bar_plot

UNBOUNDED = ("norm", "lognorm", "weibull2", "weibull3")


def P(D=3, **k): return dict(num_vars=D, names=[f"p{9 - i}" for i in range(D)], bounds=[[0.0, 1.0]] * D, **k)
def groups(n): return (["b", "a", "b", "a"])[:n]


SAMPLE = {"sobol": lambda p, **k: s_sobol.sample(p, 8, **k), "saltelli": lambda p, **k: saltelli.sample(p, 8, **k), "latin": lambda p, **k: latin.sample(p, 8, **k),
          "morris": lambda p, **k: s_morris.sample(p, 4, **k), "fast": lambda p, **k: fast_sampler.sample(p, 70, **k), "finite_diff": lambda p, **k: finite_diff.sample(p, 5, **k),
          "ff": lambda p, **k: s_ff.sample(p, **k)}
rng = np.random.default_rng(3)
XG = {}


def data(rows, D=3):
    if (rows, D) not in XG:
        g = np.random.default_rng(rows * 7 + D); X = g.random((rows, D))
        XG[rows, D] = X, X @ np.arange(1, D + 1) + X[:, 0] * X[:, -1] + .1 * g.random(rows)
    return tuple(a.copy() for a in XG[rows, D])


def fit(a, n):
    """the array cut or extended to n rows"""
    n = max(0, n)
    if n <= len(a): return a[:n]
    return np.concatenate([a, (a if len(a) else np.full((1,) + a.shape[1:], .5))[:n - len(a)]])


def an_seed(who, **k):
    p = P()
    if who == "sobol": return sobol.analyze(p, data(32)[1], num_resamples=5, **k)
    if who == "fast": return fast.analyze(p, data(210)[1], num_resamples=5, **k)
    if who == "morris":
        X = s_morris.sample(p, 4, seed=1); return morris.analyze(p, X, X @ [1., 2, 3] + X[:, 0] ** 2, num_resamples=5, **k)
    if who == "dgsm":
        X = finite_diff.sample(p, 6, seed=1); return dgsm.analyze(p, X, X @ [1., 2, 3] + X[:, 0] ** 2, num_resamples=5, **k)
    if who == "ff":
        X = s_ff.sample(p); return ff.analyze(p, X, data(len(X))[1], **k)
    if who in ("hdmr", "enhanced_hdmr"):
        X, Y = data(310)
        return hdmr.analyze(p, X, Y, maxorder=1, K=1, **k) if who == "hdmr" else enhanced_hdmr.analyze(p, X, Y, max_order=1, bootstrap=1, **k)
    X, Y = data(60)
    m = {"rbd_fast": rbd_fast, "delta": delta, "pawn": pawn}[who]
    return m.analyze(p, X, Y, **({} if who == "pawn" else dict(num_resamples=5)), **k)


def execute(op, f):
    """-> (list of arrays which must be finite)"""
    if op == "morris":
        p = P() if f["glen"] == 9 else P(groups=groups(3 + f["glen"]))
        k = None if f["k"] == 0 else (f["k"] if f["kt"] == "int" else float(f["k"]))
        return [s_morris.sample(p, f["N"], num_levels=f["lv"], optimal_trajectories=k, local_optimization=bool(f["loc"]), seed=5)]
    if op == "sampler_groups": return [SAMPLE[f["who"]](P(groups=groups(3 + f["glen"])))]
    if op == "analysis_groups":
        g = groups(3 + f["glen"]); G = len(set(g)); p = P(groups=g); X, Y = data(60)
        if f["who"] == "sobol": r = sobol.analyze(p, data((2 * G + 2) * 8)[1], num_resamples=5)
        elif f["who"] == "morris":
            X = data((G + 1) * 4)[0]; r = morris.analyze(p, X if f["glen"] else s_morris.sample(p, 4, seed=2), data((G + 1) * 4)[1], num_resamples=5)
            return [r["mu_star"]]
        elif f["who"] == "rsa": r = rsa.analyze(p, X, Y, bins=3); return [np.nan_to_num(r[n]) for n in r["names"]]
        else: r = {"pawn": pawn, "discrepancy": discrepancy}[f["who"]].analyze(p, X, Y)
        return [r[{"sobol": "S1", "pawn": "median", "discrepancy": "s_discrepancy"}[f["who"]]]]
    SEED = {"none": None, "0": 0, "1": 1, "4294967295": 4294967295, "-1": -1, "1.5": 1.5, "a": "a"}
    if op == "sampler_seed": return [SAMPLE[f["who"]](P(), seed=SEED[f["seed"]])]
    if op == "analysis_seed":
        r = an_seed(f["who"], seed=SEED[f["seed"]])
        return [r[{"morris": "mu_star", "delta": "delta_balanced", "dgsm": "dgsm", "ff": "ME", "pawn": "median", "hdmr": "Sa", "enhanced_hdmr": "Sa"}.get(f["who"], "S1")]]
    if op == "conf":
        r = an_seed(f["who"], conf_level=f["conf"] / 1000)
        return [r[{"morris": "mu_star_conf", "delta": "delta_balanced_conf", "dgsm": "dgsm_conf"}.get(f["who"], "S1_conf")]]
    if op == "fast_sample": return [fast_sampler.sample(P(f["D"]), 4 * f["M"] ** 2 + f["over"], M=f["M"])]
    if op == "fast_analyze":
        n = f["D"] * (4 * f["M"] ** 2 + f["over"]) + f["extra"]
        r = fast.analyze(P(f["D"]), data(n)[1], M=f["M"], num_resamples=5); return [r["S1"], r["ST"]] + ([r["S1_conf"], r["ST_conf"]] if n > 40 * f["D"] else [])
    if op == "sobol_len":
        G = f["G"]; n = max(0, f["blocks"] * (2 * G + 2 if f["so"] else G + 2) + f["extra"])
        r = sobol.analyze(P(G), data(n)[1] if n else np.zeros(0), calc_second_order=bool(f["so"]), num_resamples=5)
        return [r["S1"], r["ST"], r["S1_conf"]] + ([r["S2"][np.triu_indices(G, 1)]] if f["so"] else [])
    if op == "morris_len":
        X = s_morris.sample(P(f["D"]), max(2, f["traj"]), seed=4); n = f["traj"] * (f["D"] + 1); Y = X @ np.arange(1., f["D"] + 1) + X[:, 0] ** 2
        r = morris.analyze(P(f["D"]), fit(X, n + f["xextra"]), fit(Y, n + f["yextra"]), num_resamples=5); return [r["mu"], r["mu_star"], r["sigma"], r["mu_star_conf"]]
    if op == "dgsm_len":
        X = finite_diff.sample(P(f["D"]), max(2, f["blocks"]), seed=4); n = f["blocks"] * (f["D"] + 1); Y = X @ np.arange(1., f["D"] + 1) + X[:, 0] ** 2
        r = dgsm.analyze(P(f["D"]), fit(X, n + f["xextra"]), fit(Y, n + f["yextra"]), num_resamples=5); return [r["vi"], r["dgsm"]]
    if op == "ff_len":
        X = s_ff.sample(P(f["D"])); r = ff.analyze(P(f["D"]), X, data(len(X) + f["yextra"])[1]); return [r["ME"]]
    if op == "xy_len":
        w = f["who"]; n = 310 if "hdmr" in w else 60; X = data(n)[0]; Y = fit(data(n)[1], n + f["yextra"]); p = P()
        if w == "hdmr": return [hdmr.analyze(p, X, Y, maxorder=1, K=1)["Sa"]]
        if w == "enhanced_hdmr": return [enhanced_hdmr.analyze(p, X, Y, max_order=1, bootstrap=1)["Sa"]]
        if w == "rsa": rsa.analyze(p, X, Y); return []
        r = {"rbd_fast": rbd_fast, "delta": delta, "pawn": pawn, "discrepancy": discrepancy}[w].analyze(p, X, Y)
        return [r[{"rbd_fast": "S1", "delta": "delta_balanced", "pawn": "median", "discrepancy": "s_discrepancy"}[w]]]
    if op == "option":
        X, Y = data(60); v = f["value"]
        if f["what"] == "discrepancy.method": return [discrepancy.analyze(P(), X, Y, method=v)["s_discrepancy"]]
        if f["what"] == "rsa.target": rsa.analyze(P(), X, Y, target=v); return []
        if f["what"] == "delta.method":
            r = delta.analyze(P(), X, Y, method=v, num_resamples=5); return [r["delta_balanced" if v != "sobol" else "S1"]] + ([r["S1"]] if v == "all" else [])
        fig, ax = plt.subplots()
        try: horizontal_bar_plot(ax, an_seed("morris"), {}, sortby=v)
        finally: plt.close(fig)
        return []
    if op == "bounds":
        d, a, b, e = f["dist"], f["b1"] / 1000, f["b2"] / 1000, f["extra"] / 1000
        bd = {"triang2": [a, e], "triang3": [a, b, e], "truncnorm": [a, b, .2, e], "weibull3": [a, b, e]}.get(d, [a, b])
        p = P(2); at = (f["b1"] + f["b2"] + f["extra"] + len(d)) % 2; p["bounds"] = [[0., 1.], [0., 1.]]; p["bounds"][at] = bd
        if d != "default": p["dists"] = ["unif", "unif"]; p["dists"][at] = d.rstrip("23")
        X = SAMPLE[f["who"]](p)
        return [X[:, 1 - at] if d in UNBOUNDED and f["who"] in ("morris", "ff", "finite_diff") else X]
    if op == "dists":
        d = ["unif", "norm", "unif", "unif"][:3 + f["dlen"]]
        if f["unknown"]: d[-1] = "uniform"
        SAMPLE[f["who"]](P(dists=d)) if f["who"] in ("ff", "morris") else SAMPLE[f["who"]](P(dists=d)); return []
    if op in ("hdmr", "enhanced_hdmr"):
        X, Y = data(f["rows"], f["D"]); p = P(f["D"]); R = f["R"] or None
        if op == "hdmr": r = hdmr.analyze(p, X, Y, maxorder=f["maxorder"], maxiter=f["maxiter"], m=f["m"], K=f["K"], R=R, alpha=f["alpha"] / 1000, lambdax=f["lam"] / 1000, seed=1)
        else: r = enhanced_hdmr.analyze(p, X, Y, max_order=f["maxorder"], max_iter=f["maxiter"], poly_order=f["m"], bootstrap=f["K"], subset=R, alpha=f["alpha"] / 1000, l2_penalty=f["lam"] / 1000,
                                        extended_base=bool(f["ext"]), seed=1)
        return [r["Sa"], r["Sb"], r["S"]]
    if op == "spec":
        ProblemSpec({"names": [f"x{i}" for i in range(f["names"])], "bounds": [[0, 1]] * f["bounds"]}); return []
    raise MachineryError(op)


def one(req):
    ctx = one.ctx
    def go():
        out = execute(req["op"], req["f"])
        return all(np.isfinite(np.asarray(a, float)).all() and np.asarray(a).size > 0 for a in out)
    return ctx.call(go, timeout=100)


class Lite(Ctx):
    def __init__(self): pass


def run(ctx):
    big = ctx.thorough
    ctx.model("MCDomain", f"SPECIFICATION Spec\nCONSTANTS MAXEDITS = {3 if big else 2}\nINVARIANTS StartsInside Listed Bracketed\nCHECK_DEADLOCK FALSE\n", cover=["Edit"])
    ctx.model("MCDomain", "SPECIFICATION Spec\nCONSTANTS MAXEDITS = 2\nINVARIANTS OneAtATime\nCHECK_DEADLOCK FALSE\n", expect_ok=False)
    ops = ["morris", "sampler_groups", "analysis_groups", "sampler_seed", "analysis_seed", "conf", "fast_sample", "fast_analyze", "sobol_len", "morris_len", "dgsm_len",
           "ff_len", "xy_len", "option", "bounds", "dists", "hdmr", "enhanced_hdmr", "spec"]
    edits = lambda op: (2 if op in ("hdmr", "enhanced_hdmr") else 6) if big else (2 if "hdmr" in op else 3)
    gen = ctx.oracle("DomainOracle", [dict(op=o, edits=edits(o)) for o in ops], batch=2)
    reqs = [q for g in gen for q in g["reqs"]]
    if not big:       # sampling of the combinations which are slow to answer; every single edit is kept
        reqs = [q for q in reqs if "hdmr" not in q["op"] or len(q["bad"]) == 1 or ctx.rnd.random() < .35]
    # the costliest admissible requests are left to the thorough tier
    def costly(q):
        f = q["f"]
        return "hdmr" in q["op"] and not q["bad"] and ((f["maxorder"] == 3 and f["m"] >= 10) or (f["K"] >= 100 and (f["maxorder"] == 3 or f["m"] >= 10)))
    reqs = [q for q in reqs if not costly(q) and not (q["deg"] and not q["bad"])]
    ctx.rnd.shuffle(reqs)
    one.ctx = Lite()
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        res = list(ex.map(one, reqs, chunksize=8))
    for q, r in zip(reqs, res):
        ctx.samples += 1
        ctx.count(q["op"] + (":out" if q["bad"] else ":in"))
        if is_err(r, "TimeoutError"): ctx.bad("no-answer", q, r.msg)
        elif q["bad"] and not is_err(r): ctx.bad("accepted-outside-domain:" + ",".join(sorted(q["bad"])), q, f"{q['op']}: a request breaking {q['bad']} was answered")
        elif not q["bad"] and is_err(r): ctx.bad("refused-inside-domain", q, f"{q['op']}: {r.type}: {r.msg}\n{r.tb[-600:]}")
        elif not q["bad"] and r is not True: ctx.bad("not-finite", q, f"{q['op']}: empty or non-finite result")
    limits = {(q["op"], q["bad"][0]) for q in reqs if len(q["bad"]) == 1}
    ctx.extra["limits_bracketed"] = len(limits)
    ctx.traces += len(limits)
