"""C29: what the charts show (spec/Plots.tla)."""
import concurrent.futures as cf, copy, multiprocessing as mp
from vlib import *
import numpy as np
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.container import BarContainer
from SALib import ProblemSpec
from SALib.util import ResultDict
from SALib.sample import morris as s_morris
from SALib.plotting.bar import plot as barplot
from SALib.plotting.morris import horizontal_bar_plot, covariance_plot, sample_histograms
from SALib.plotting.heatmap import heatmap

METHODS = ["sobol", "sobol1", "morris", "fast", "rbd_fast", "delta", "dgsm", "pawn", "rsa", "discrepancy", "ff", "ff2", "hdmr", "enhanced_hdmr"]


class Ids:
    """real numbers -> dense ranks, rounding-close ones merged; NaN -> -1"""
    def __init__(self): self.vals = []
    def add(self, x):
        x = [float(v) for v in np.ravel(np.ma.filled(np.ma.asarray(x, float), np.nan))]; self.vals += [v for v in x if not math.isnan(v)]; return x
    def close(self):
        s = sorted(set(self.vals)); top = max([abs(v) for v in s if math.isfinite(v)] + [1e-300]); self.id = {}; n = 0
        for i, v in enumerate(s):
            if i and (v - s[i - 1] > 1e-9 * abs(v) + 1e-13 * top): n += 1
            self.id[v] = n
        return self
    def __call__(self, x): return [-1 if math.isnan(v) else self.id[v] for v in x]


def map_num(o, ids):
    """replace every tagged list of reals by its ids"""
    if isinstance(o, tuple) and o and o[0] == "#": return ids(o[1])
    if isinstance(o, tuple) and o and o[0] == "#1": return ids(o[1])[0]
    if isinstance(o, dict): return {k: map_num(v, ids) for k, v in o.items()}
    if isinstance(o, list): return [map_num(v, ids) for v in o]
    return o


class Case:
    def __init__(self): self.ids = Ids()
    def N(self, x): return ("#", self.ids.add(x))
    def one(self, x): return ("#1", self.ids.add([x]))
    def done(self, d): self.ids.add([0.0]); self.ids.close(); return map_num(d, self.ids)


def label(i): return "(" + ", ".join(str(t) for t in i) + ")" if isinstance(i, tuple) else str(i)


def bar_axes(c, ax):
    """bars by the tick under them"""
    labels = [t.get_text() for t in ax.get_xticklabels()]; ticks = list(ax.get_xticks()); n = len(ticks); series = []
    for b in ax.containers:
        if not isinstance(b, BarContainer): continue
        h = [math.nan] * n; half = [math.nan] * n; seen = set()
        segs = b.errorbar.lines[2][0].get_segments() if b.errorbar is not None else None
        for k, r in enumerate(b.patches):
            x = r.get_x() + r.get_width() / 2; i = int(np.argmin([abs(x - t) for t in ticks])); seen.add(i); h[i] = r.get_height() + r.get_y()
            if segs is not None and k < len(segs) and len(segs[k]) == 2:
                lo, hi = segs[k][0][1], segs[k][1][1]; half[i] = (hi - lo) / 2
                if abs(segs[k][0][0] - x) > .02 or (np.isfinite(hi) and np.isfinite(h[i]) and not close((hi + lo) / 2, h[i], 1e-6, 1e-6 * max(1, abs(hi)))): half[i] = 1e77   # a bar's error centred elsewhere
        if len(seen) != n or len(b.patches) != n: h = h[:0]
        series.append(dict(name=str(b.get_label()), h=c.N(h), half=c.N(half) if segs is not None else []))
    return dict(labels=labels, series=series, title=ax.get_title())


def frame_of(c, f, si, title=""):
    cols, cells = [], []
    for col in f.columns:
        if f[col].dtype.kind not in "iuf": continue
        v = f[col].to_numpy(float)
        if col in si and np.shape(si[col]) == v.shape: v = np.asarray(si[col], float)
        base = str(col).replace("_conf", "") if "_conf" in str(col) else ""
        cols.append(dict(name=str(col), conf="_conf" in str(col), base=base)); cells.append(c.N(v))
    return dict(idx=[label(i) for i in f.index], cols=cols, cells=cells, title=title)


def frames(c, si, title=""):
    d = si.to_df(); d = [x for x in d if x is not None] if isinstance(d, (list, tuple)) else [d]
    return [frame_of(c, x, si, title if k == 0 else "") for k, x in enumerate(d)]


def problem(rnd, D, groups, outs):
    names = [rnd.choice(["x", "Z", "alpha", "p q", "_"]) + f"{(i * 7 + 3) % 11}{'abc'[i % 3]}" for i in range(D)]; rnd.shuffle(names)
    d = dict(names=names, bounds=[[0, 1]] * D)
    if groups:
        g = [rnd.choice(["G2", "G1", "A"]) for _ in range(D)]
        if len(set(g)) == 1: g[0] = "other"
        d["groups"] = g
    if outs > 1: d["outputs"] = ["Yb", "Ya", "Yc"][:outs]
    return d


def model(X, k, w):
    Y = np.column_stack([(i + 1) * X[:, 0] + X @ w[:X.shape[1]] ** (i + 1) + X[:, 0] * X[:, -1] * w[0] for i in range(k)]); return Y if k > 1 else Y[:, 0]


def analysed(rnd, m, D, groups, outs):
    sp = ProblemSpec(problem(rnd, D, groups, outs)); w = np.array([rnd.choice([.1, .5, 1., 2., -1.]) for _ in range(2 * D + 8)]); s = rnd.randint(0, 999)
    if m in ("sobol", "sobol1"): sp.sample_sobol(16, calc_second_order=m == "sobol", seed=s)
    elif m == "morris": sp.sample_morris(5, seed=s)
    elif m == "fast": sp.sample_fast(70, seed=s)
    elif m == "dgsm": sp.sample_finite_diff(8, seed=s)
    elif m in ("ff", "ff2"): sp.sample_ff(seed=s)
    else: sp.sample_latin(310 if "hdmr" in m else 60, seed=s)
    sp.evaluate(model, outs, w)
    kw = dict(hdmr=dict(K=2), enhanced_hdmr=dict(bootstrap=2), delta=dict(num_resamples=4), ff2=dict(second_order=True), sobol1=dict(calc_second_order=False), rsa=dict(bins=5), sobol=dict(num_resamples=9)).get(m, {})
    getattr(sp, "analyze_" + {"sobol1": "sobol", "ff2": "ff"}.get(m, m))(**kw)
    return sp


def snapshot(si): return {k: copy.deepcopy(v) for k, v in si.items()}


def heat_case(sp, si, out, asked, title, how):
    c = Case(); keys = []
    for k, v in si.items():
        a = v if isinstance(v, dict) else np.asarray(v, dtype=object) if isinstance(v, (list, tuple)) and v and isinstance(v[0], (list, tuple)) else np.asarray(v)
        num = not isinstance(v, dict) and getattr(a, "dtype", np.dtype(object)).kind in "iuf"
        if k in ("names",): continue
        # values of other dimensions (matrices, scalars, text) are given another length
        keys.append(dict(name=k, conf=k.endswith("_conf"), numeric=bool(num), cells=c.N(a) if num and a.ndim == 1 else c.N([0.] * 97)))
    names = si["names"] if "names" in si else si.get("Term") if "Term" in si else None
    if names is None:
        g = list(dict.fromkeys(sp["groups"])) if sp.get("groups") else sp["names"]
        names = g if len(g) == len(np.ravel(si[[k for k in si][0]])) else sp["names"]
    before = snapshot(si); fig, axs = plt.subplots(1, 2)
    pick = axs[1] if how % 2 else None
    ax = sp.heatmap(out, asked, title, pick) if how < 2 else heatmap(sp, metric=out, index=asked, title=title, ax=pick)
    im = np.asarray(np.ma.filled(ax.images[0].get_array().astype(float), np.nan))
    d = dict(rows=[t.get_text() for t in ax.get_yticklabels()], cols=[t.get_text() for t in ax.get_xticklabels()], cells=[c.N(r) for r in im], title=ax.get_title())
    okticks = list(ax.get_xticks()) == list(range(im.shape[1])) and list(ax.get_yticks()) == list(range(im.shape[0])) and (pick is None or ax is pick)
    if not okticks: d["rows"] = ["labels away from their cells"]
    plt.close("all")
    return c.done(dict(kind="heat", frozen=same(before, snapshot(si)), drawn=d, keys=keys, asked=[asked] if isinstance(asked, str) else list(asked or []), names=[str(n) for n in names],
                       title=title if title is not None else (out or sp["outputs"][0])))


def curves_of(c, axes): return [dict(title=a.get_title(), x=c.N(l.get_xdata()), y=c.N(l.get_ydata())) for a in axes for l in a.get_lines()]


def job(spec):
    """-> list of (description, trace case or Err)"""
    kind, arg, seed = spec
    rnd = random.Random(f"{kind}{arg}{seed}"); np.random.seed(rnd.randrange(1 << 30)); out = []
    lite = Lite()
    def emit(desc, fn):
        r = lite.call(fn, timeout=100); plt.close("all"); out.append((desc, r))
    if kind == "method":
        m, D, groups, outs = arg
        sp = lite.call(analysed, rnd, m, D, groups, outs)
        if is_err(sp): return [(f"{m}: analysis", sp)]
        onames = sp["outputs"]
        sis = [sp.analysis] if outs == 1 else [sp.analysis[o] for o in onames]
        def bars():
            c = Case(); before = [snapshot(s) for s in sis]
            if outs == 1:
                base = getattr(sp.analysis, "_plot", sp.analysis.plot); n = len(frames(Case(), sis[0]))
                if m in ("rsa", "hdmr"): axes = base()
                elif rnd.random() < .5: axes = sp.plot()
                else: fig, ax = plt.subplots(1, n); axes = sp.analysis.plot(ax=ax if n > 1 else ax)
                fr = frames(c, sis[0])
            else:
                axes = sp.plot(); fr = [f for o, s in zip(onames, sis) for f in frames(c, s, o)]
            ax = [bar_axes(c, a) for a in np.ravel(axes)]
            return c.done(dict(kind="bars", frozen=all(same(b, snapshot(s)) for b, s in zip(before, sis)), axes=ax, frames=fr, zero=c.one(0.0)))
        emit(f"{m} bar chart D={D} groups={groups} outputs={outs}", bars)
        def direct():
            c = Case(); si = sis[0]; d = si.to_df(); d = [x for x in d if x is not None] if isinstance(d, (list, tuple)) else [d]; f = d[rnd.randrange(len(d))]
            keep = f.copy(deep=True); ax = barplot(f); r = bar_axes(c, ax)
            return c.done(dict(kind="bars", frozen=bool(keep.equals(f)), axes=[r], frames=[frame_of(c, f, si)], zero=c.one(0.0)))
        emit(f"{m} barplot of a frame", direct)
        if m != "rsa":
            for t in range(2):
                o = rnd.choice(onames); si = sis[onames.index(o)]
                val = [k for k, v in si.items() if not k.endswith("_conf") and k not in ("names", "Term", "notes") and not isinstance(v, dict) and np.ndim(v) == 1 and np.asarray(v).dtype.kind in "iuf" and len(v) == len(np.ravel(si[next(iter(si))]))]
                asked = None if t == 0 else rnd.choice([rnd.choice(val), rnd.sample(val, rnd.randint(1, len(val)))])
                emit(f"{m} heat map {o} {asked}", lambda: heat_case(sp, si, o if rnd.random() < .7 or o != onames[0] else None, asked, rnd.choice([None, "T"]), rnd.randrange(4)))
        if m == "rsa" and outs == 1:
            def rs():
                c = Case(); si = sis[0]; before = snapshot(si); pick = None if rnd.random() < .5 else rnd.sample(list(si["names"]), 2 if len(si["names"]) > 2 else 1); axes = si.plot(factors=pick) if pick else si.plot()
                return c.done(dict(kind="curves", frozen=same(before, snapshot(si)), drawn=curves_of(c, np.ravel(axes)), want=[dict(title="", x=c.N(si["bins"]), y=c.N(si[n])) for n in (pick or si["names"])]))
            emit(f"rsa curves {groups}", rs)
    elif kind == "hdmr":
        K, D, emu = arg
        def hd():
            from SALib.analyze import hdmr
            c = Case(); g = np.random.default_rng(seed); X = g.random((310, D)); Y = X @ np.arange(1., D + 1) + X[:, 0] ** 2; p = dict(num_vars=D, names=[f"q{D - i}" for i in range(D)], bounds=[[0, 1]] * D)
            si = hdmr.analyze(p, X, Y, K=K, R=300 if K > 1 else None, maxorder=1, seed=seed)
            if emu: Z = g.random((25, D)); si.emulate(Z, Z @ np.arange(1., D + 1))
            before = snapshot(si); plt.close("all"); si.plot(); figs = [plt.figure(n) for n in plt.get_fignums()]
            em, idx = si["Em"], si["idx"]; first = max(0, K - 10); yp = np.linspace(Y.min(), Y.max(), len(Y)); want = []
            for i in range(first, K): want += [dict(title=f"Trial {K - i}", x=em["Y_e"][:, i], y=Y[idx[:, i]]), dict(title=f"Trial {K - i}", x=yp, y=yp)]
            last = idx[:, -1]
            for i in range(D):
                t = "Regression of parameter " + p["names"][i] + r"$^{(Last Trial)}$"
                want += [dict(title=t, x=X[last, i], y=Y[last]), dict(title=t, x=X[last, i], y=np.mean(em["f0"]) + si["Y_em"][:, i])]
            if emu:
                t = f"Testing results\nSSR = {np.sum((si['emulated'] - si['Y_test']) ** 2):.2f}"
                want += [dict(title=t, x=si["emulated"], y=si["Y_test"]), dict(title=t, x=si["Y_test"], y=si["Y_test"])]
            drawn = [a for f in figs for a in f.axes if a.get_lines() and not any(isinstance(b, BarContainer) for b in a.containers)]
            sub = slice(None, None, 29)         # a fixed selection of the points keeps the traces small
            dr = [dict(title=a.get_title(), x=c.N(l.get_xdata()[sub]), y=c.N(l.get_ydata()[sub])) for a in drawn for l in a.get_lines()]
            return c.done(dict(kind="curves", frozen=same({k: v for k, v in before.items() if k != "Em"}, {k: v for k, v in snapshot(si).items() if k != "Em"}), drawn=dr, want=[dict(title=w["title"], x=c.N(np.asarray(w["x"])[sub]), y=c.N(np.asarray(w["y"])[sub])) for w in want]))
        emit(f"hdmr figures K={K} D={D}", hd)
    elif kind == "morris":
        D, style = arg
        names = [f"{rnd.choice('abcxyz')}{(i * 5) % 13}" for i in range(D)]
        v = lambda lo: np.array([rnd.choice([0., 1., 2.]) if style == "ties" else rnd.uniform(lo, 5) for _ in range(D)])
        sig = v(0)
        if style == "groups": sig[[rnd.randrange(D)]] = np.nan
        si = ResultDict(names=names, mu=v(-5) if style != "ties" else v(0) - 1, mu_star=v(0), sigma=sig, mu_star_conf=v(0))
        for sortby in ("mu_star", "mu_star_conf", "sigma", "mu"):
            if style == "groups" and sortby == "sigma": continue
            def hb():
                c = Case(); before = snapshot(si); fig, ax = plt.subplots(); opts = rnd.choice([None, {}, {"color": "r"}])
                b = horizontal_bar_plot(ax, si, opts, sortby=sortby, unit="m") if sortby != "mu_star" or rnd.random() < .5 else horizontal_bar_plot(ax, si)
                ticks, lab = list(ax.get_yticks()), [t.get_text() for t in ax.get_yticklabels()]; dr = []; segs = b.errorbar.lines[2][0].get_segments()
                for k, r in enumerate(b.patches):
                    y = r.get_y() + r.get_height() / 2; s = segs[k]
                    ok = len(s) == 2 and abs(s[0][1] - y) < 1e-6 and close((s[0][0] + s[1][0]) / 2, r.get_width(), 1e-6, 1e-6)
                    dr.append((y, dict(name=lab[int(np.argmin([abs(y - t) for t in ticks]))], v=c.one(r.get_width()), conf=c.one((s[1][0] - s[0][0]) / 2 if ok else 1e77))))
                dr = [d for _, d in sorted(dr, key=lambda t: t[0])]
                rows = [dict(name=names[i], v=c.one(si["mu_star"][i]), conf=c.one(si["mu_star_conf"][i]), key=c.one(si[sortby][i])) for i in range(D)]
                return c.done(dict(kind="morris", frozen=same(before, snapshot(si)), drawn=dr, rows=rows))
            emit(f"Morris bars {style} D={D} by {sortby}", hb)
        def cov():
            c = Case(); before = snapshot(si); fig, ax = plt.subplots(); o = np.asarray(np.ma.filled(covariance_plot(ax, si, {}, unit="u").get_offsets(), np.nan))
            return pairs(c.done(dict(kind="cov", frozen=same(before, snapshot(si)), drawn=[c.N(p) for p in o], mustar=c.N(si["mu_star"]), sigma=c.N(si["sigma"]), conf=c.N(si["mu_star_conf"]))))
        emit(f"Morris covariance {style} D={D}", cov)
    elif kind == "hist":
        D, lv, mixed = arg
        def hist():
            p = dict(num_vars=D, names=[f"h{D - i}" for i in range(D)], bounds=[[0, 1 + i] for i in range(D)]); X = s_morris.sample(p, (4 if lv < 20 else 16) * lv + 8, num_levels=lv, seed=seed)
            L = np.rint(X / (1 + np.arange(D)) * (lv - 1)).astype(int); nl = [lv] * D
            if mixed:        # a sample whose columns have different numbers of values
                nl = [rnd.choice([2, 3, 5, 7, lv]) for _ in range(D)]
                if D > 1: nl[1] = nl[0] + 1
                L = np.array([[rnd.randrange(k) for k in nl] for _ in range(60 if lv < 20 else 400)]); X = L * 1.5 - 4
            if any(len(set(L[:, i])) != nl[i] for i in range(D)): return None
            keep = X.copy(); fig = plt.figure(); sample_histograms(fig, X, p, {"color": "y"}) if rnd.random() < .5 else sample_histograms(fig, X, p)
            dr = [dict(title=a.get_title(), counts=[int(round(r.get_height())) for r in sorted(a.patches, key=lambda r: r.get_x())]) for a in fig.axes]
            return dict(kind="hist", frozen=bool(np.array_equal(X, keep)), drawn=dr, names=p["names"], lv=[[int(v) for v in L[:, i]] for i in range(D)])
        emit(f"histograms D={D} levels={lv}", hist)
    return out


def pairs(d): return d


class Lite(Ctx):
    def __init__(self): pass


def corrupt(d, rnd):
    """a copy with one drawn thing changed -> (copy, clause)"""
    e = copy.deepcopy(d); k = e["kind"]
    if k == "bars":
        a = e["axes"][rnd.randrange(len(e["axes"]))]
        if rnd.random() < .5 and len(set(a["labels"])) > 1: a["labels"][0], a["labels"][-1] = a["labels"][-1], a["labels"][0]; return e, "bar-labels"
        s = a["series"][0]; s["h"][0] = 10 ** 6; return e, "bar-height"
    if k == "morris":
        if len(e["drawn"]) > 1 and e["drawn"][0]["v"] != e["drawn"][-1]["v"]: e["drawn"][0]["name"], e["drawn"][-1]["name"] = e["drawn"][-1]["name"], e["drawn"][0]["name"]; return e, "morris-value-under-label"
        e["drawn"][0]["conf"] += 10 ** 6; return e, "morris-error-bar"
    if k == "cov": e["drawn"][0][1] += 10 ** 6; return e, "covariance-points"
    if k == "heat": e["drawn"]["cells"][-1][0] += 10 ** 6; return e, "heat-cells"
    if k == "hist": e["drawn"][0]["counts"][0] += 1; return e, "hist-counts"
    e["drawn"][-1]["y"][0] += 10 ** 6; return e, "curve-points"


def run(ctx):
    big = ctx.thorough; rnd = ctx.rnd
    cfg = lambda a, b, c, n=3, v=2: f"SPECIFICATION Spec\nCONSTANTS\n N = {n}\n V = {v}\n OwnOrder = {a}\n PrefixLabels = {b}\n ByPosition = {c}\nINVARIANT Faithful\nPROPERTY Drawn\nCHECK_DEADLOCK FALSE\n"
    ctx.model("MCPlots", cfg("FALSE", "FALSE", "FALSE", *((3, 3) if big else (3, 2))), cover=["Reorder", "Stack", "Series"], timeout=800)
    for w in (("TRUE", "FALSE", "FALSE"), ("FALSE", "TRUE", "FALSE"), ("FALSE", "FALSE", "TRUE")): ctx.model("MCPlots", cfg(*w, n=2), expect_ok=False)
    jobs = []
    for r in range(4 if big else 1):
        for m in METHODS:
            for groups in (0, 1):
                for outs in (1, 2, 3) if big else (1, rnd.choice([2, 3])):
                    D = rnd.choice([2, 3, 4, 6]) if "hdmr" not in m else rnd.choice([2, 3])
                    if groups and D < 3: D = 3
                    jobs.append(("method", (m, D, groups, outs), ctx.seed * 100 + r))
    for K in (1, 2, 3, 10, 11, 14, 20) if big else (1, rnd.choice([2, 3, 10]), rnd.choice([11, 13, 20])): jobs.append(("hdmr", (K, rnd.choice([2, 3, 4]), K % 2), ctx.seed))
    for D in (1, 2, 3, 5, 9, 12):
        for style in ("plain", "ties", "groups"):
            for r in range(3 if big else 1): jobs.append(("morris", (D, style), ctx.seed * 10 + r))
    for D, lv in [(1, 4), (2, 2), (3, 4), (5, 6), (10, 4), (12, 8), (2, 24), (3, 30)]: jobs.append(("hist", (D, lv, False), ctx.seed)); jobs.append(("hist", (D, lv, True), ctx.seed))
    rnd.shuffle(jobs)
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex: outs = list(ex.map(job, jobs))
    descs, cases = [], []
    for j, o in zip(jobs, outs):
        for desc, r in o:
            if is_err(r): ctx.bad("not-drawn", dict(chart=desc, job=j), f"{desc}: {r}\n{r.tb[-500:]}")
            elif r is not None: descs.append((desc, j)); cases.append(r); ctx.count(r["kind"])
    st = []
    for k in ("bars", "morris", "cov", "heat", "hist", "curves"):
        mine = [c for c in cases if c["kind"] == k]
        if mine: st.append(corrupt(rnd.choice(mine), rnd))
        if mine: x = copy.deepcopy(mine[0]); x["frozen"] = False; st.append((x, "result-modified"))
    for (desc, j), c, r in zip(descs, cases, ctx.trace("PlotTrace", cases, selftest=st)):
        if not r["ok"]: ctx.bad(r["clause"], dict(chart=desc, job=j, case=c), f"{desc}: {r['clause']}")
