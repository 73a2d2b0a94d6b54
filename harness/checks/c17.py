"""C17: the workflow object never shows results of another sample or run (spec/ProblemSpec.tla)."""
import copy, itertools
from vlib import *
import numpy as np
import SALib.sample as smp, SALib.analyze as ana
from SALib import ProblemSpec
from SALib.util import ResultDict
import SALib.sample.sobol, SALib.sample.saltelli, SALib.sample.latin, SALib.sample.morris, SALib.sample.fast_sampler, SALib.sample.ff, SALib.sample.finite_diff
import SALib.analyze.sobol, SALib.analyze.morris, SALib.analyze.fast, SALib.analyze.rbd_fast, SALib.analyze.delta, SALib.analyze.dgsm, SALib.analyze.ff
import SALib.analyze.pawn, SALib.analyze.rsa, SALib.analyze.discrepancy, SALib.analyze.hdmr
import distlib


# --- stand-ins for sampler, model and analysis that record exactly what they are handed
def mk_sampler(arr, fail):
    def sampler(problem, *a, **k):
        if fail: raise ValueError("sampler fails")
        return arr
    return sampler


class Model:
    def __init__(self, ys, fail): self.ys, self.fail, self.seen = ys, fail, None
    def __call__(self, X, scale, shift=0):
        X[:, 0]                                  # like any model: needs samples
        if self.fail: raise ValueError("model fails")
        self.seen = X
        return self.ys * scale + shift


def par_model(X, base, k):
    if base is None: raise ValueError("model fails")
    Y = np.stack([X[:, 0] + base + 1000 * c for c in range(k)], axis=1)
    return Y if k > 1 else Y[:, 0]


def mk_an(uses_x, tag, fail_at):
    cnt = [0]
    def common(problem, x, Y):
        cnt[0] += 1
        if fail_at and (cnt[0] == fail_at or fail_at < 0): raise ValueError("analysis fails")
        r = ResultDict(S1=[1.0] * problem["num_vars"], names=list(problem["names"]))
        r.rec = (tag, None if x is None else np.array(x), np.array(Y))
        return r
    if uses_x:
        def an(problem, X, Y, tag2=0): return common(problem, X, Y)
    else:
        def an(problem, Y, tag2=0): return common(problem, None, Y)
    return an


ALPHA = [("sample", "no"), ("sample", "raises"), ("set_samples", "no"), ("set_samples", "cols"), ("evaluate1", "no"), ("evaluate2", "no"), ("evaluate1", "raises"),
         ("set_results1", "no"), ("set_results2", "no"), ("set_results1", "rows"), ("analyzeX", "no"), ("analyze", "no"), ("analyzeX", "raises"), ("report", "no")]
PAR = [("evaluate_parallel1", "no"), ("evaluate_parallel2", "no"), ("evaluate_parallel1", "raises"), ("analyze_parallelX", "no"), ("analyze_parallel", "raises")]


class Run:
    """one workflow object and the versions of everything given to it"""
    def __init__(self, o, analysable, rnd, spec):
        self.rnd, self.o, self.analysable = rnd, o, analysable
        d = dict(names=["x2", "x1"], bounds=[[0, 1], [2, 3]])
        if not analysable:
            if rnd.random() < .5: d = dict(names=["x1"], bounds=[[0, 1]])
            else:
                if rnd.random() < .5: k = rnd.choice([3, 6, 7, 12]); d = dict(names=[f"x{k - j}" for j in range(k)], bounds=[[0, 1]] * k)
                d["groups"] = ["g"] * len(d["names"])
        elif rnd.random() < .3: d["groups"] = rnd.choice([["b", "a"], ["x1", "x2"]])
        if o: d["outputs"] = ["B", "A"][:o]
        self.D = len(d["names"]); self.sp = spec(d)
        self.S, self.R, self.A = {}, {}, {}       # version -> array / array+columns / tag
        self.v, self.steps, self.ro = 0, [], {}

    def ver(self, store, arr, absent=0):
        if arr is None: return absent
        for v, a in store.items():
            if isinstance(arr, np.ndarray) and arr.shape == a.shape and np.array_equal(arr, a): return v
        return -1

    def obs(self):
        sp = self.sp
        r = self.ver(self.R, sp.results)
        o = len(sp["outputs"]) if sp.get("outputs") is not None else 0
        k = 0 if sp.results is None else (1 if sp.results.ndim == 1 else sp.results.shape[1])
        a = as_ = ar = 0
        if sp.analysis is not None:
            recs = [sp.analysis] if isinstance(sp.analysis, ResultDict) else list(sp.analysis.values()) if isinstance(sp.analysis, dict) else []
            keys = None if isinstance(sp.analysis, ResultDict) else list(sp.analysis)
            if not recs or (keys is not None and keys != list(sp["outputs"])) or (keys is None and o > 1): a = as_ = ar = -1
            else:
                tags = {x.rec[0] for x in recs}; a = tags.pop() if len(tags) == 1 else -1
                xs = {self.ver(self.S, x.rec[1]) for x in recs}; as_ = xs.pop() if len(xs) == 1 else -1
                ar = -1
                for v, arr in self.R.items():
                    cols = [arr[:, i] for i in range(arr.shape[1])] if arr.ndim == 2 and len(recs) > 1 else [arr]
                    if len(cols) == len(recs) and all(np.array_equal(x.rec[2].ravel(), c.ravel()) for x, c in zip(recs, cols)): ar = v
        return dict(s=self.ver(self.S, sp.samples), r=r, ro=self.ro.get(r, 0) if r else 0, k=k, a=a, ar=ar, **{"as": as_}, o=o)

    def do(self, ctx, name, bad):
        sp, rnd = self.sp, self.rnd
        self.v += 1; v = self.v
        base = name.rstrip("12X"); k = int(name[-1]) if name[-1] in "12" else 0; x = name.endswith("X")
        cur = sp.samples.shape[0] if sp.samples is not None else rnd.choice([2, 3])
        n = rnd.choice([2, 3])
        op = dict(op=base, v=v, n=0, k=k, x=x, bad=bad)
        if base == "sample":
            op["n"] = n; arr = v * 100. + rnd.random() + np.arange(n * self.D).reshape(n, self.D)
            if bad == "no": self.S[v] = arr.copy()
            r = ctx.call(sp.sample, mk_sampler(arr, bad != "no"), *([5] if rnd.random() < .5 else []))
        elif base == "set_samples":
            op["n"] = n; D = self.D + (rnd.choice([1, 2]) if bad == "cols" or self.D == 1 and bad != "no" else 0) if bad == "no" or rnd.random() < .5 or self.D == 1 else self.D - 1
            arr = v * 100. + np.arange(n * D).reshape(n, D)
            if bad == "no": self.S[v] = arr.copy()
            if rnd.random() < .6: r = ctx.call(sp.set_samples, arr)
            else: r = ctx.call(setattr, sp, "samples", arr); r = r if is_err(r) else sp
        elif base == "evaluate":
            sh = (cur,) if k == 1 and rnd.random() < .7 else (cur, k)
            ys = v * 100. + rnd.random() + np.arange(cur * k, dtype=float).reshape(sh)
            m = Model(ys, bad != "no"); sc, sf = rnd.choice([1.0, 2.0]), rnd.choice([0, 5.0])
            form = rnd.randrange(3)
            r = ctx.call(sp.evaluate, m, sc, **({"shift": sf} if form else {})) if form < 2 else ctx.call(sp.evaluate, m, scale=sc, shift=sf, nprocs=1)
            self.R[v] = ys * sc + (sf if form else 0)
            self.ro[v] = self.ver(self.S, m.seen)
        elif base == "evaluate_parallel":
            b = v * 100. + 7
            args = (None if bad != "no" else b, k)
            if sp.samples is not None:
                self.R[v] = par_model(sp.samples, b, k); self.ro[v] = self.ver(self.S, sp.samples)
            r = ctx.call(sp.evaluate, par_model, *args, nprocs=rnd.choice([2, 3])) if rnd.random() < .6 else ctx.call(sp.evaluate_parallel, par_model, *args, nprocs=2)
        elif base == "set_results":
            m = cur if bad == "no" else cur + rnd.choice([-1, 1, 2])
            op["n"] = m; op["bad"] = "no"
            arr = v * 100. + rnd.random() + np.arange(m * k, dtype=float).reshape((m,) if k == 1 and rnd.random() < .7 else (m, k))
            self.R[v] = arr.copy(); self.ro[v] = 0
            if rnd.random() < .7 or bad != "no": r = ctx.call(sp.set_results, arr)
            else: r = ctx.call(setattr, sp, "results", arr); r = r if is_err(r) else sp
        elif base in ("analyze", "analyze_parallel"):
            k0 = len(sp["outputs"]) if sp.get("outputs") is not None else 1
            f = mk_an(x, v, 0 if bad == "no" else (-1 if base == "analyze_parallel" else rnd.choice([1, k0])))
            if base == "analyze": r = ctx.call(sp.analyze, f, tag2=3) if rnd.random() < .5 else ctx.call(sp.analyze, f)
            else: r = ctx.call(sp.analyze, f, nprocs=rnd.choice([1, 2, 3]))
        else:
            r = ctx.call(sp.to_df); str(sp)
            if not is_err(r): r = sp
            elif sp.analysis is None:
                for nm in ("plot", "heatmap"):
                    if not is_err(ctx.call(getattr(sp, nm))): r = sp
        self.steps.append(dict(op=op, raise_=is_err(r), obs=self.obs()))
        self.ret = is_err(r) or r is sp

    def case(self):
        return dict(o=self.o, analysable=self.analysable, steps=[dict(op=s["op"], obs=s["obs"], **{"raise": s["raise_"]}) for s in self.steps])


def histories(ctx):
    rnd, big = ctx.rnd, ctx.thorough
    seqs = []
    for i, s in enumerate(itertools.product(ALPHA, repeat=3)):
        if big or i % 2 == ctx.seed % 2: seqs.append((list(s), i % 3, (i // 3) % 7 != 0))
    for i in range(1500 if big else 500):
        seqs.append(([rnd.choice(ALPHA) for _ in range(rnd.randint(4, 14))], rnd.randrange(3), rnd.random() < .85))
    # histories that mostly succeed, so that long valid workflows with replacements are common
    good = [a for a in ALPHA if a[1] == "no"]
    for i in range(1000 if big else 300):
        k = rnd.choice("12")
        alpha = [a for a in good if a[0][-1] not in "12" or a[0][-1] == k]
        seqs.append(([rnd.choice(alpha) for _ in range(rnd.randint(4, 14))], rnd.choice([0, int(k)]), True))
    for i in range(60 if big else 20):
        k = rnd.choice("12"); al = [a for a in good + PAR * 2 if a[0][-1] not in "12" or a[0][-1] == k]
        seqs.append(([rnd.choice(al) for _ in range(rnd.randint(4, 8))], rnd.choice([0, int(k)]), True))
    spec = lambda d: ProblemSpec(d)
    cases, raw = [], []
    pairs = [seqs[i:i + 2] if i % 10 == 0 else [seqs[i], None] for i in range(len(seqs)) if i % 10 != 1]
    for pr in pairs:       # every tenth pair of histories runs interleaved on two objects
        rs = [Run(o, an, rnd, spec) for x in pr if x for (_, o, an) in [x]]
        todo = [list(x[0]) for x in pr if x]
        while any(todo):
            j = rnd.choice([q for q in range(len(todo)) if todo[q]])
            nm, bad = todo[j].pop(0)
            rs[j].do(ctx, nm, bad)
            if not rs[j].ret: ctx.bad("chaining", dict(call=nm), "the call did not return the object")
            if any(s["raise_"] is True and False for s in rs[j].steps): pass
        for r, x in zip(rs, [x for x in pr if x]):
            cases.append(r.case()); raw.append(x); ctx.count("history")
        if ctx.full: return
    # binding self-test: corrupted recordings must be rejected
    st = []
    for c in cases:
        if not st and any(s["obs"]["a"] > 0 and not s["raise"] for s in c["steps"]) and c["analysable"]:
            i = next(i for i, s in enumerate(c["steps"]) if s["obs"]["a"] > 0)
            d = copy.deepcopy(c); d["steps"][i]["obs"]["ar"] -= 1; d["steps"] = d["steps"][:i + 1]; st.append((d, "analysis"))
    for c in cases:
        i = next((i for i in range(1, len(c["steps"])) if c["steps"][i]["op"]["op"] in ("set_samples", "sample") and not c["steps"][i]["raise"] and c["steps"][i - 1]["obs"]["r"] > 0), None)
        if i is not None:
            d = copy.deepcopy(c); d["steps"] = d["steps"][:i + 1]
            for f in ("r", "ro", "k"): d["steps"][i]["obs"][f] = d["steps"][i - 1]["obs"][f]
            st.append((d, "results")); break
    for (c, x), v in zip(zip(cases, raw), ctx.trace("ProblemTrace", cases, selftest=st)):
        if not v["ok"]: ctx.bad(v["clause"], dict(history=x, recorded=c["steps"][:v["at"]]), f"at call {v['at']}: {c['steps'][v['at'] - 1]}")
        if ctx.full: return


def methods(ctx):
    """the convenience methods run the named method on the exposed data, per named output"""
    rnd = ctx.rnd
    plan = [("sobol", dict(N=8, seed=3), "sobol", {}), ("saltelli", dict(N=8), "sobol", dict(seed=1, num_resamples=5)), ("saltelli", dict(N=8, calc_second_order=False), "sobol", dict(calc_second_order=False, seed=1)),
            ("morris", dict(N=6, seed=2), "morris", dict(seed=1)), ("latin", dict(N=40, seed=5), "delta", dict(seed=1, num_resamples=3)), ("latin", dict(N=60, seed=5), "rbd_fast", dict(M=3, seed=1)),
            ("latin", dict(N=60, seed=4), "pawn", dict(S=4, seed=2)), ("latin", dict(N=60, seed=4), "rsa", dict(bins=4)), ("latin", dict(N=30, seed=4), "discrepancy", {}), ("latin", dict(N=300, seed=4), "hdmr", dict(seed=1)),
            ("fast", dict(N=70, seed=4), "fast", dict(seed=1)), ("ff", {}, "ff", dict(second_order=True, seed=1)), ("finite_diff", dict(N=6, seed=3), "dgsm", dict(seed=1))]
    smod = {"fast": SALib.sample.fast_sampler, "saltelli": SALib.sample.saltelli, "sobol": SALib.sample.sobol, "morris": SALib.sample.morris, "latin": SALib.sample.latin, "ff": SALib.sample.ff, "finite_diff": SALib.sample.finite_diff}
    for i in range((4 if ctx.thorough else 2) * len(plan)):
        sm, sk, an, ak = plan[i % len(plan)]; nout = 1 + (i // len(plan) + i) % 3
        D = rnd.choice([3, 4]); grp = rnd.choice([None, [0, 1, 0, 1][:D]]) if sm in ("sobol", "saltelli", "latin") and an in ("sobol", "pawn", "rsa", "discrepancy") else None
        p = distlib.problem(rnd, D, grp)
        sk, ak = dict(sk), dict(ak)
        if an == "sobol" and "seed" not in ak: ak["seed"] = 7
        outs = ["late", "early", "mid"][:nout] if i % 2 else None
        q = dict(names=list(p["names"]), bounds=copy.deepcopy(p["bounds"]))
        if grp: q["groups"] = list(p["groups"])
        if outs: q["outputs"] = list(outs)
        desc = dict(problem=q, sampler=sm, analysis=an, outputs=nout, options=[sk, ak]); ctx.count("method"); ctx.traces += 1
        sp = ProblemSpec(q)
        w = np.linspace(1, 2, 3)
        col = nout == 1 and i % 2 == 0          # a single output may come as a one-column matrix
        model = lambda X: (lambda Z: Z[:, 0] if nout == 1 and not col else Z[:, :nout])(np.stack([(np.sin(X / (1 + abs(X))) * np.arange(1, X.shape[1] + 1) ** w[c]).sum(1) for c in range(3)], axis=1))
        r = ctx.call(lambda: getattr(getattr(sp, "sample_" + sm)(**sk).evaluate(model), "analyze_" + an)(**(dict(ak, nprocs=2) if nout == 1 and i % 3 == 0 else ak)))
        if is_err(r) or r is not sp: ctx.bad("workflow-fails", desc, r); continue
        d = dict(num_vars=D, **{k: copy.deepcopy(v) for k, v in p.items() if k != "num_vars"})
        X = ctx.call(smod[sm].sample, d, **sk)
        if is_err(X) or not same(X, sp.samples): ctx.bad("samples-differ-from-the-method", desc, X); continue
        Y = model(X)
        if not same(Y, sp.results): ctx.bad("results-differ-from-the-model", desc, ""); continue
        f = getattr(SALib.analyze, an).analyze
        usesx = an in ("morris", "delta", "rbd_fast", "pawn", "rsa", "discrepancy", "hdmr", "ff", "dgsm")
        names = outs or (["Y"] if nout == 1 else [f"Y{j + 1}" for j in range(nout)])
        for j, nm in enumerate(names):
            y = Y.reshape(-1) if nout == 1 else Y[:, j]
            want = ctx.call(f, d, *([X] if usesx else []), y, **ak)
            if nout > 1 and (not isinstance(sp.analysis, dict) or list(sp.analysis) != names): ctx.bad("output-names", desc, list(sp.analysis or [])); break
            got = sp.analysis if nout == 1 else sp.analysis[nm]
            keys = [k for k in want if k not in ("Em", "RT")] if not is_err(want) else []
            if is_err(want) or set(got) != set(want) or not all(same(got[k], want[k]) for k in keys): ctx.bad("analysis-differs-from-the-method", dict(desc, output=nm), want); break
        if ctx.full: return


def replacements(ctx):
    """what is exposed is what was given last, whatever was held before; arrays handed over earlier keep their values"""
    rnd, g = ctx.rnd, ctx.nprng
    for i in range(60 if ctx.thorough else 25):
        D, n = rnd.choice([2, 3]), rnd.choice([4, 7])
        sp = ProblemSpec(dict(names=[f"x{j}" for j in range(D)], bounds=[[0, 1]] * D))
        k = rnd.choice([0, 0, 1, 2]); given = []; hist = []
        def arr(shape):
            dt = rnd.choice(["int64", "float64", "float32", "int8", "bool"]); hist.append(dt)
            a = (g.random(shape) * 9 - 4).astype(dt)
            if rnd.random() < .3: a = np.asfortranarray(a)
            given.append((a, a.copy())); return a
        for step in range(rnd.randint(2, 6)):
            if step == 0 or rnd.random() < .3:
                X = arr((n, D)); r = ctx.call(sp.set_samples if rnd.random() < .5 else lambda X: setattr(sp, "samples", X), X); hist[-1] = "samples " + hist[-1]; Y = None
            else:
                Y = arr(n if k == 0 else (n, k)); how = rnd.choice(["set", "attr", "eval"])
                r = ctx.call(dict(set=lambda: sp.set_results(Y), attr=lambda: setattr(sp, "results", Y), eval=lambda: sp.evaluate(lambda Z: Y))[how]); hist[-1] = how + " " + hist[-1]
            ctx.count("replacement"); desc = dict(D=D, rows=n, outputs=k, history=list(hist))
            if is_err(r): ctx.bad("workflow-fails", desc, r); break
            if not np.array_equal(sp.samples, X) or sp.samples.dtype != X.dtype: ctx.bad("exposes-other-samples", desc, sp.samples); break
            if (Y is None) != (sp.results is None) or (Y is not None and (not np.array_equal(sp.results, Y) or sp.results.shape != Y.shape)): ctx.bad("exposes-other-results", desc, sp.results); break
            if not all(np.array_equal(a, b) for a, b in given): ctx.bad("changes-arrays-given-earlier", desc, ""); break
        if ctx.full: return


def run(ctx):
    ctx.model("MCProblemSpec", f"SPECIFICATION Spec\nCONSTANTS\n L = {5 if ctx.thorough else 4}\nINVARIANTS NeverStale OutputsNamed FailKeeps SingleNeverAnalysed\nCHECK_DEADLOCK FALSE\n",
              cover=["Sample", "SetSamples", "Evaluate", "EvaluateP", "SetResults", "Analyze", "AnalyzeP", "Report"], workers=6)
    histories(ctx)
    if not ctx.full: methods(ctx)
    if not ctx.full: replacements(ctx)
    ctx.notes.append("evaluate() does not compare the model's row count with the samples, and a failing sampler may already have cleared results: neither is claimed.")
