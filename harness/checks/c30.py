"""C30: a request means the same in every form it can be written in (spec/CallForm.tla)."""
import ast, copy
from vlib import *
import numpy as np
from SALib import ProblemSpec
from SALib.sample import sobol as s_sobol, saltelli, latin, fast_sampler, finite_diff, ff as s_ff
from SALib.sample import morris as s_morris
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, pawn, rsa, discrepancy, ff, hdmr, enhanced_hdmr
from SALib.test_functions import Ishigami, Sobol_G, lake_problem

FUN = {"s_sobol": s_sobol.sample, "s_saltelli": saltelli.sample, "s_fast": fast_sampler.sample, "s_latin": latin.sample, "s_morris": s_morris.sample, "s_finite_diff": finite_diff.sample, "s_ff": s_ff.sample,
       "a_sobol": sobol.analyze, "a_morris": morris.analyze, "a_fast": fast.analyze, "a_rbd_fast": rbd_fast.analyze, "a_delta": delta.analyze, "a_dgsm": dgsm.analyze, "a_ff": ff.analyze, "a_pawn": pawn.analyze,
       "a_rsa": rsa.analyze, "a_discrepancy": discrepancy.analyze, "a_hdmr": hdmr.analyze, "a_enhanced_hdmr": enhanced_hdmr.analyze,
       "f_ishigami": Ishigami.evaluate, "f_sobol_g": Sobol_G.evaluate, "f_lake": lake_problem.evaluate}
NAMES = ["p3", "p1", "p2"]
SIZE = {"s_sobol": [8, 5], "s_saltelli": [8, 20], "s_fast": [70, 97], "s_latin": [9], "s_morris": [6], "s_finite_diff": [5]}
SLOW = {"a_hdmr": {"K": "1", "maxiter": "1"}, "a_enhanced_hdmr": {"bootstrap": "1"}}


def base(D=3): return dict(num_vars=D, names=(NAMES + ["p0"])[:D], bounds=[[0.0, 1.0] for _ in range(D)])
def problem(form, D=3):
    p = base(D)
    if form == "spec": return ProblemSpec(p)
    if form == "tuples": p["bounds"] = tuple(map(tuple, p["bounds"])); p["names"] = tuple(p["names"])
    if form == "array": p["bounds"] = np.array(p["bounds"])
    if form == "npint": p["num_vars"] = np.int64(D)
    if form == "none": p.update(groups=None, dists=None)
    if form == "unif": p["dists"] = ["unif"] * D
    return p


def model(X): return np.sin(3 * X[:, 0]) + X[:, 1] ** 2 * X[:, 2] + 2 * X[:, 1]


def data():
    g = np.random.default_rng(17); D = {}
    u = g.random((60, 3)); big = g.random((620, 3))
    lk = g.random((6, 7)) * .01 + np.array([.05, 2.0, .4, .02, .0017, .98, .4])
    for m in FUN:
        if m == "a_sobol": X = s_sobol.sample(base(), 8, seed=1)
        elif m == "a_morris": X = s_morris.sample(base(), 6, seed=1)
        elif m == "a_fast": X = fast_sampler.sample(base(), 70, seed=1)
        elif m == "a_dgsm": X = finite_diff.sample(base(), 6, seed=1)
        elif m == "a_ff": X = s_ff.sample(base(4))
        elif "hdmr" in m: X = big
        elif m == "f_lake": X = lk
        elif m == "f_sobol_g": X = g.random((60, 8))
        elif m == "f_ishigami": X = u * 6 - 3
        else: X = u
        X = np.ascontiguousarray(X, float)
        D[m] = X, model(X) if X.shape[1] == 3 else X[:, 0] + np.arange(len(X))
        if m == "a_ff": D[m] = X, np.arange(len(X)) * 1.5 + X[:, 0] * X[:, 1]
        if m == "a_rsa": D[m] = X[:50], D[m][1][:50]
    return D


def lit(v):
    try:
        x = ast.literal_eval(v)
        return np.array(x, float) if isinstance(x, list) else x
    except Exception: return v                  # a text option


def laid(A, l):
    """the array placed in memory as the specification lays it out"""
    B = A.reshape(len(A), -1)
    buf = np.full(l["size"], -7.5)
    V = np.lib.stride_tricks.as_strided(buf[l["off"]:], B.shape, (l["sr"] * 8, l["sc"] * 8))
    V[...] = B
    return V if A.ndim == 2 else V[:, 0]


def norm(r):
    """the observable content of a result"""
    if isinstance(r, np.ndarray): return r
    if isinstance(r, dict): return {k: r[k] for k in r if k not in ("Em", "RT", "hdmr", "emulator") and not callable(r[k])}
    return r


class Calls:
    def __init__(self, ctx): self.ctx, self.D, self.known = ctx, data(), {}

    def arr(self, m, n, X, Y): return {"X": X, "values": X, "Y": Y}[n]

    def perform(self, m, form, pos, kw, pform="dict", X=None, Y=None, generic=False, par=False):
        """-> (result or Err, printed text)"""
        ctx, f = self.ctx, FUN[m]
        X0, Y0 = self.D[m]
        X, Y = X0.copy() if X is None else X, Y0.copy() if Y is None else Y
        val = lambda v: self.arr(m, v, X, Y) if v in ("X", "Y", "values") else lit(v)
        # text "X"/"Y" is also a value of rsa's target
        def bound(n, v): return lit(v) if n == "target" else val(v)
        names = (self.sig[m]["lead"] if not (form == "workflow" and m[0] != "s") else []) + [o["n"] for o in self.sig[m]["opts"]]
        P = [bound(names[i] if i < len(names) else "", v) for i, v in enumerate(pos)]
        K = {n: bound(n, v) for n, v in kw}
        out = io.StringIO()
        def go():
            p = problem(pform, 4 if m == "a_ff" else 3)
            if m[0] == "f" and form == "function": return f(*P, **K)
            if form == "function": return f(p, *P, **K)
            sp = p if isinstance(p, ProblemSpec) else ProblemSpec(p)
            if m[0] == "s":
                nm = m[2:]
                (sp.sample(f, *P, **K) if generic else getattr(sp, "sample_" + nm)(*P, **K))
                return sp.samples
            if m[0] == "f":
                q = sp if X.shape[1] == 3 else ProblemSpec(dict(names=[f"v{j}" for j in range(X.shape[1])], bounds=[[0, 1]] * X.shape[1]))
                q.set_samples(X).evaluate(f, *P, **K)
                return q.results
            sp.set_samples(X).set_results(Y)
            if par: K["nprocs"] = 2
            (sp.analyze(f, *P, **K) if generic else getattr(sp, "analyze_" + m[2:])(*P, **K))
            return sp.analysis
        def quiet():
            with contextlib.redirect_stdout(out): return go()
        r = ctx.call(quiet)
        return (r if is_err(r) else norm(r)), out.getvalue()

    def canonical(self, m, a):
        """the plain function with every option spelled out by name and nothing left to a default"""
        key = m, json.dumps(a, sort_keys=True)
        if key not in self.known: self.known[key] = self.perform(m, "function", [], sorted(a.items()))[0]
        return self.known[key]


def run(ctx):
    big, rnd = ctx.thorough, ctx.rnd
    ctx.model("MCCallForm", "SPECIFICATION Spec\nCONSTANTS\n Methods = {%s}\n Extra = TRUE\nINVARIANTS MeaningKept DamageSeen LayoutFree\nCHECK_DEADLOCK FALSE\n"
              % ('"s_sobol", "a_rsa", "f_ishigami", "s_fast", "s_ff", "s_morris"' if big else '"s_sobol", "f_ishigami", "s_fast", "a_discrepancy"'),
              cover=["DropDefault", "SpellDefault", "Rotate", "ToPosition", "ToKeyword", "ToWorkflow", "Unknown", "Twice", "TooMany", "Missing"], timeout=900)
    C = Calls(ctx)
    C.sig = sig = ctx.oracle("CallFormOracle", [dict(kind="table")])[0]
    if set(sig) != set(FUN): raise MachineryError("methods of the specification and of the harness differ")
    # ---- calls: a random meaning, written in a random form, sometimes damaged
    cases, how = [], []
    def add(m, form, assign, lead, give, npos, dmg=None, **h):
        """assign: option -> value; give: which options are written out; npos: how many arguments go by position"""
        s = sig[m]
        names = (list(s["lead"]) if form == "function" or m[0] == "s" else []) + [o["n"] for o in s["opts"]]
        dflt = {o["n"]: o["d"] for o in s["opts"]}
        lim = len(s["lead"]) if s["kwonly"] else len(names)
        npos = min(npos, lim)
        val = lambda n: lead.get(n, n) if n in s["lead"] else assign.get(n, dflt[n])
        pos = [val(n) for n in names[:npos]]
        kw = [[n, val(n)] for n in names[npos:] if n in s["lead"] or n in give]
        rnd.shuffle(kw)
        if dmg == "unknown": kw.append([rnd.choice(["nosuch", "Seed", "resamples", "n"]), "1"])
        if dmg == "twice" and pos: kw.append([names[rnd.randrange(npos)], pos[0]])
        if dmg == "toomany": pos = [val(n) for n in names[:lim]] + ["1"]; kw = [e for e in kw if e[0] not in names[:lim]]
        if dmg == "missing":
            if not (s["lead"] and names[:1] == list(s["lead"])[:1]): return
            pos = []; kw = [e for e in kw if e[0] not in s["lead"]]
        size = int(lit(lead["N"])) if "N" in lead else len(C.D[m][1])
        cases.append(dict(kind="call", m=m, form=form, pos=pos, kw=kw, size=size)); how.append(h)
    for m in sorted(sig):
        s = sig[m]; opts = s["opts"]; stoch = any(o["n"] == "seed" for o in opts)
        fixed = dict(SLOW.get(m, {}))
        dflt = {o["n"]: o["d"] for o in opts}
        def meaning(full=False):
            a = {o["n"]: rnd.choice([o["d"]] * 2 + o["alts"]) for o in opts}
            for k, v in fixed.items():
                if not full: a[k] = v
            if m == "a_hdmr" and a["K"] != "1" and rnd.random() < .8: a["K"] = "2"
            if m == "a_enhanced_hdmr" and a["bootstrap"] not in ("1",): a["bootstrap"] = "2"
            if stoch and a["seed"] == "None": a["seed"] = rnd.choice(["3", "11"])
            if m == "f_lake": a["nvars"] = rnd.choice(["12", "100"])
            if m == "a_delta": a["y_resamples"] = rnd.choice(["None", "30"])
            return a
        def lead(): return {"N": str(rnd.choice(SIZE[m]))} if m in SIZE else {}
        n = (40 if big else 12) if "hdmr" not in m else (14 if big else 6)
        # everything left to its default, in both forms, by name and by position
        for form in ("function", "workflow"):
            a = dict(dflt, **({"seed": "3"} if stoch else {}))
            if "hdmr" in m: a["K" if m == "a_hdmr" else "bootstrap"] = "2"
            give = {"seed"} | ({"K"} if m == "a_hdmr" else {"bootstrap"} if "hdmr" in m else set())
            add(m, form, a, lead(), give, len(s["lead"]), generic=form == "workflow" and rnd.random() < .5)
            for o in opts:                     # each option alone
                for v in o["alts"][: 9 if big else 1]:
                    if o["n"] == "seed": continue
                    b = dict(a); b[o["n"]] = v
                    add(m, form, b, lead(), give | {o["n"]}, rnd.choice([0, len(s["lead"])]), generic=rnd.random() < .3)
        if "hdmr" in m and (big or ctx.seed % 2): add(m, "function", dict(dflt, seed="3"), {}, {"seed"}, 2)
        for i in range(n):
            a = meaning(full=i % 3 == 0); form = rnd.choice(["function", "workflow"])
            give = {k for k in a if a[k] != dflt[k] or rnd.random() < .4} | {"seed"}
            dmg = rnd.choice(["unknown", "twice", "toomany", "missing"]) if i % 4 == 3 else None
            add(m, form, a, lead(), give, rnd.randint(0, len(s["lead"]) + len(opts)), dmg, pform=rnd.choice(["dict", "spec", "tuples", "array", "npint", "none", "unif"]), generic=rnd.random() < .5,
                par=form == "workflow" and m[0] == "a" and rnd.random() < .15)
    exp = ctx.oracle("CallFormOracle", cases)
    for c, h, e in zip(cases, how, exp):
        m = c["m"]; desc = dict(method=m, form=c["form"], positional=c["pos"], keywords=c["kw"], **h)
        ctx.count("calls" if e["ok"] else "non-calls"); ctx.traces += 1
        got, text = C.perform(m, c["form"], c["pos"], c["kw"], h.get("pform", "dict"), generic=h.get("generic", False), par=h.get("par", False))
        if not e["ok"]:
            if not is_err(got): ctx.bad("meaningless-request-answered", desc, "a request with an unknown, repeated, surplus or missing argument returned a result")
            continue
        want = C.canonical(m, e["a"])
        if is_err(want) or is_err(got): ctx.bad("valid-request-fails", desc, want if is_err(want) else got)
        elif not same(got, want): ctx.bad("form-changes-result", dict(desc, meaning=e["a"]), diff(got, want))
        elif m[0] == "a" and bool(text.strip()) != e["prints"] and not h.get("par"): ctx.bad("console-output", desc, f"print_to_console={e['prints']} but the call wrote {len(text)} characters")
        if ctx.full: return
    # ---- every option matters: another value of it gives another result
    for m in sorted(sig):
        a = {o["n"]: o["d"] for o in sig[m]["opts"]}
        if "seed" in a and m != "f_lake": a["seed"] = "3"
        a.update({"K": "2"} if m == "a_hdmr" else {"bootstrap": "2"} if m == "a_enhanced_hdmr" else {"optimal_trajectories": "None"} if m == "s_morris" else {"scaled": "False"} if m == "a_morris" else {})
        for n in sig[m]["lead"]: a[n] = str(SIZE[m][0]) if n == "N" else n
        ref = C.canonical(m, a)
        if is_err(ref): ctx.bad("valid-request-fails", dict(method=m, meaning=a), ref); continue
        for o in sig[m]["opts"]:
            if not o["e"]: continue
            for v in o["alts"][:2]:
                if v == a[o["n"]]: continue
                b = dict(a); b[o["n"]] = v
                if m == "a_hdmr" and o["n"] in ("maxiter",): continue
                r = C.canonical(m, b); ctx.count("options")
                if is_err(r): ctx.bad("valid-request-fails", dict(method=m, meaning=b), r)
                elif same(r, ref): ctx.bad("option-without-effect", dict(method=m, option=o["n"], value=v), "the result is that of the default")
        if ctx.full: return
    # ---- arrays: the memory layout is no part of the request
    lay = ["C", "F", "rows-strided", "cols-strided", "reversed-rows", "offset"]
    todo = [(m, l, k) for m in sorted(sig) if m[0] != "s" for l in lay for k in (0, 1)]
    if not big: todo = [t for t in todo if "hdmr" not in t[0] or rnd.random() < .34]
    q = []
    for m, l, k in todo:
        X, Y = C.D[m]
        q += [dict(kind="layout", l=l, r=X.shape[0], c=X.shape[1]), dict(kind="layout", l=l if l != "F" else "rows-strided", r=len(Y), c=1 if k else 2)]
    L = ctx.oracle("CallFormOracle", q)
    for i, (m, l, k) in enumerate(todo):
        X, Y = C.D[m]
        a = {o["n"]: o["d"] for o in sig[m]["opts"]}
        if "seed" in a and m != "f_lake": a["seed"] = "3"
        a.update({"K": "1"} if m == "a_hdmr" else {"bootstrap": "1"} if m == "a_enhanced_hdmr" else {})
        for n in sig[m]["lead"]: a[n] = n
        XX = laid(X, L[2 * i])
        YY = laid(np.column_stack([Y] * (1 if k else 2)), L[2 * i + 1])[:, 0]
        if not (np.array_equal(XX, X) and np.array_equal(YY, Y)): raise MachineryError("layout does not hold the matrix")
        if k: XX.flags.writeable = False; YY.flags.writeable = False
        got = C.perform(m, "function" if i % 2 else "workflow", [], sorted((n, v) for n, v in a.items() if i % 2 or n not in sig[m]["lead"]), X=XX, Y=YY)[0]
        want = C.canonical(m, a); ctx.count("layouts"); ctx.traces += 1
        desc = dict(method=m, layout=l, read_only=bool(k), form="function" if i % 2 else "workflow")
        if is_err(got) or is_err(want): ctx.bad("valid-request-fails", desc, got if is_err(got) else want)
        elif not same(got, want, 1e-7, 1e-9): ctx.bad("layout-changes-result", desc, diff(got, want))
        if ctx.full: return
    # ---- a column or row of outputs is either refused or means the vector it holds; several columns are refused
    for m in sorted(sig):
        if m[0] != "a": continue
        X, Y = C.D[m]
        a = {o["n"]: o["d"] for o in sig[m]["opts"]}
        if "seed" in a: a["seed"] = "3"
        a.update({"K": "1"} if m == "a_hdmr" else {"bootstrap": "1"} if m == "a_enhanced_hdmr" else {})
        for n in sig[m]["lead"]: a[n] = n
        for shape, YY in (("column", Y[:, None].copy()), ("row", Y[None, :].copy()), ("two columns", np.column_stack([Y, Y[::-1]]))):
            got = C.perform(m, "function", [], sorted(a.items()), Y=YY)[0]; ctx.count("output shapes"); ctx.traces += 1
            if is_err(got): continue
            if shape == "two columns" or not same(flat(got), flat(C.canonical(m, a)), 1e-7, 1e-9): ctx.bad("output-shape", dict(method=m, shape=shape), diff(got, C.canonical(m, a)))


def flat(r): return {k: (v if k == "names" else np.ravel(np.asarray(v, dtype=None))) for k, v in r.items()}


def diff(got, want):
    if isinstance(got, dict) and isinstance(want, dict):
        if set(got) != set(want): return f"entries {sorted(map(str, got))} instead of {sorted(map(str, want))}"
        for k in got:
            if not same(got[k], want[k]): return f"{k}: {str(got[k])[:160]} instead of {str(want[k])[:160]}"
    return f"{str(got)[:200]} instead of {str(want)[:200]}"
