"""C18: parallel execution gives the serial values (spec/Parallel.tla)."""
import copy, os, time
from vlib import *
import numpy as np
from SALib import ProblemSpec
import SALib.analyze.sobol as sobol_mod
from SALib.analyze import sobol, pawn, delta, rsa, discrepancy, rbd_fast
import distlib


class Logged:
    """a model that logs which rows it was given and finishes after a row-dependent delay"""
    def __init__(self, log, delays, k, kind): self.log, self.delays, self.k, self.kind = log, delays, k, kind
    def __call__(self, X, gain=1.0, *, shift=0.0):
        X = np.asarray(X); ids = X[:, 0].astype(int)
        d = sum(self.delays.get(int(i), 0) for i in ids)
        if d: time.sleep(d)
        with open(self.log, "a") as f: f.write(json.dumps([int(i) for i in ids]) + "\n")
        base = ids * 8.0
        if self.kind == "mixed":      # whole numbers come back as integers, so the type differs between chunks
            Y = ids * 8 * gain + shift + np.where(ids % 3 == 0, .25, 0)
            return Y.astype(int) if np.all(Y == np.floor(Y)) else Y
        if self.kind == "int": return (ids * 8 * int(gain) + int(shift))
        Y = np.stack([base + c for c in range(self.k)], axis=1) * gain + shift
        if self.kind == "3d": return np.stack([Y, Y + .5], axis=2)
        return Y[:, 0] if self.kind == "1d" else Y


def evaluations(ctx):
    rnd, big = ctx.rnd, ctx.thorough
    combos = [(n, p) for n in range(1, 10) for p in (2, 3, 4, 5, 7, 8)] + [(n, p) for n in (11, 16, 17, 23, 64, 101) for p in (2, 3, 5, 6, 8)]
    rnd.shuffle(combos); cases, meta = [], []
    ooo = 0
    for i, (n, p) in enumerate(combos[:84 if big else 44]):
        log = os.path.join(ctx.tmp, f"log{i}"); open(log, "w").close()
        kind = ["1d", "2d", "mixed", "2d", "int", "3d", "mixed", "1d"][i % 8]; k = 1 if kind in ("1d", "int", "mixed") else rnd.choice([1, 2, 3])
        ids = list(range(1, n + 1)); sh = ids[:]
        delays = {}
        if i % 3 != 2:    # force late starts to finish early
            for j in ids[: max(1, n // p)]: delays[j] = .06 / max(1, n // p)
            if n > 3 and rnd.random() < .5: delays[rnd.choice(ids)] = .04
        sp = ProblemSpec(dict(names=["a", "b"], bounds=[[0, 1]] * 2)); X = np.column_stack([ids, np.array(ids) * .1]).astype(float)
        if i % 5 == 1: X = np.asfortranarray(X)
        sp.set_samples(X)
        m = Logged(log, delays, k, kind); args = rnd.choice([((), {}), ((2.0,), {}), ((), dict(shift=3.0)), ((2.0,), dict(shift=3.0)), ((), dict(gain=4.0))])
        serial = ctx.call(Logged(os.devnull, {}, k, kind), X, *args[0], **args[1])
        how = rnd.choice(["evaluate", "parallel"]) if p <= 8 else "parallel"
        r = ctx.call(sp.evaluate, m, *args[0], nprocs=p, **args[1]) if how == "evaluate" else ctx.call(sp.evaluate_parallel, m, *args[0], nprocs=rnd.choice([p, p, None]), **args[1])
        desc = dict(rows=n, nprocs=p, kind=kind, outputs=k, args=args, via=how); ctx.count("evaluate")
        if is_err(r) or is_err(serial): ctx.bad("parallel-evaluation-fails", desc, r); continue
        got = np.asarray(sp.results)
        ev = [e for e in map(json.loads, open(log)) if e]
        if [e[0] for e in ev] != sorted(e[0] for e in ev): ooo += 1
        if got.shape[1:] != serial.shape[1:]: ctx.bad("result-shape", desc, (got.shape, serial.shape)); continue
        ident = []
        flat, sflat = got.reshape(len(got), -1), serial.reshape(n, -1)
        for row in flat:
            w = [j + 1 for j in range(n) if np.array_equal(row, sflat[j])]
            ident.append(w[0] if w else 0)
        cases.append(dict(kind="rows", n=n, p=p, ev=ev, res=ident)); meta.append(desc)
    if ooo == 0: ctx.notes.append("no run completed its chunks out of submission order")
    ctx.extra["completed_out_of_order"] = ooo
    return cases, meta


def sobol_runs(ctx):
    rnd, big, g = ctx.rnd, ctx.thorough, ctx.nprng
    cases, meta = [], []
    for i in range(40 if big else 22):
        D = rnd.choice([2, 2, 3, 4, 5]) if i % 7 != 4 else rnd.choice([8, 11, 13]); so = i % 2 == 0
        grp = None if i % 3 else [rnd.randrange(3) for _ in range(D)]
        p = distlib.problem(rnd, D, grp); G = len(set(p["groups"])) if grp and len(set(p["groups"])) > 1 else D
        N = rnd.choice([1, 2, 3, 8, 33]); L = N * (2 * G + 2 if so else G + 2)
        Y = g.normal(size=L) * 3 + 7 if i % 5 else g.integers(0, 3, size=L).astype(float)
        if np.ptp(Y) == 0: Y[0] += 1
        keep = i % 5 in (1, 4); nr = rnd.choice([2, 5, 20]); seed = rnd.choice([0, 1, 77]); npr = rnd.choice([None, 1, 2, 3, 7, 40 if big else 12])
        kw = dict(calc_second_order=so, num_resamples=nr, seed=seed, keep_resamples=keep, conf_level=rnd.choice([.5, .95, .99]))
        desc = dict(problem=p, Y=Y, n_processors=npr, options=kw); ctx.count("sobol")
        S0 = ctx.call(sobol.analyze, copy.deepcopy(p), Y.copy(), **kw)
        S1 = ctx.call(sobol.analyze, copy.deepcopy(p), Y.copy(), parallel=True, **({} if npr is None else dict(n_processors=npr)), **kw)
        if is_err(S0) or is_err(S1): ctx.bad("parallel-analysis-fails", desc, (S0, S1)); continue
        if set(S0) != set(S1): ctx.bad("parallel-keys-differ", desc, (list(S0), list(S1))); continue
        got = []
        for k in ("S1", "S1_conf", "ST", "ST_conf"):
            for j in range(len(S1[k])):
                a, b = (float(S0[k][j]) if j < len(S0[k]) else math.nan), float(S1[k][j])
                got.append(dict(task=[k, j + 1, 0], same=close(b, a, 1e-9, 1e-11)))
        for k in ("S2", "S2_conf") if "S2" in S1 else ():
            for j in range(G):
                for l in range(G):
                    a, b = float(S0[k][j][l]), float(S1[k][j][l])
                    if l <= j:
                        if not (math.isnan(a) and math.isnan(b)): got.append(dict(task=[k, j + 1, l + 1], same=False))
                    else: got.append(dict(task=[k, j + 1, l + 1], same=close(b, a, 1e-9, 1e-11)))
        if keep:
            for k in ("S1_conf_all", "ST_conf_all"):
                if not np.allclose(S0[k], S1[k], rtol=1e-9, atol=1e-11, equal_nan=True): ctx.bad("parallel-resamples-differ", dict(desc, key=k), (S0[k], S1[k]))
        f0, f1 = ctx.call(S0.to_df), ctx.call(S1.to_df)
        if is_err(f1) or is_err(f0) or len(f0) != len(f1) or any(list(a.index) != list(b.index) or not np.allclose(a, b, equal_nan=True, atol=1e-11) for a, b in zip(f0, f1)): ctx.bad("parallel-frames-differ", desc, (f0, f1))
        cases.append(dict(kind="tasks", d=G, so=so, got=got)); meta.append(desc)
        if ctx.full: break
    return cases, meta


def outputs(ctx):
    """several outputs analysed in parallel: per named output the serial indices"""
    rnd, big, g = ctx.rnd, ctx.thorough, ctx.nprng
    fs = [(pawn.analyze, dict(S=4, seed=3), True), (rsa.analyze, dict(bins=4), True), (discrepancy.analyze, {}, True), (sobol.analyze, dict(seed=5, num_resamples=5), False),
          (delta.analyze, dict(seed=2, num_resamples=3), True), (rbd_fast.analyze, dict(M=2, seed=1, num_resamples=3), True)]
    for i in range(24 if big else 12):
        f, kw, usesx = fs[i % len(fs)]; D = rnd.choice([2, 3]); K = rnd.choice([1, 2, 3, 4, 5]); npr = rnd.choice([1, 2, 3, 8, None])
        p = distlib.problem(rnd, D); N = 6 * (2 * D + 2) if not usesx else 48
        X = np.array(distlib.scale(p, g.random((N, D)))); Z = (X - X.mean(0)) / X.std(0)
        Y = np.stack([Z @ g.normal(size=D) + (c + 1) * 10 + .1 * Z[:, c % D] ** 2 for c in range(K)], axis=1)
        if K == 1: Y = Y[:, 0]
        q = dict(names=p["names"], bounds=p["bounds"])
        if i % 2: q["outputs"] = [f"o{K - c}" for c in range(K)]
        desc = dict(problem=q, method=f.__module__, outputs=K, nprocs=npr); ctx.count("outputs"); ctx.traces += 1
        sp = ProblemSpec(copy.deepcopy(q)); sp.set_samples(X); sp.set_results(Y)
        r = ctx.call(sp.analyze, f, nprocs=npr, **kw)
        if is_err(r) or r is not sp: ctx.bad("parallel-outputs-fail", desc, r); continue
        names = q.get("outputs") or (["Y"] if K == 1 else [f"Y{c + 1}" for c in range(K)])
        if K > 1 and (not isinstance(sp.analysis, dict) or list(sp.analysis) != names): ctx.bad("parallel-output-names", desc, list(sp.analysis or [])); continue
        for c, nm in enumerate(names):
            d = dict(num_vars=D, **copy.deepcopy(p)) if "num_vars" not in p else copy.deepcopy(p)
            y = Y if K == 1 else Y[:, c]
            want = ctx.call(f, d, *([X] if usesx else []), y, **kw); got = sp.analysis if K == 1 else sp.analysis[nm]
            if is_err(want) or set(want) != set(got) or not same({k: v for k, v in want.items() if k != "notes"}, {k: v for k, v in got.items() if k != "notes"}, 1e-9, 1e-12):
                ctx.bad("parallel-output-differs", dict(desc, output=nm), (want, got)); break
        if ctx.full: return


def dist_model(X, gain=1.0, shift=0.0):
    return X[:, 0] * gain + X[:, 1] + shift


def distributed(ctx):
    """local workers of the distributed evaluation (no server answers)"""
    g = ctx.nprng
    for n, p, srv, a, k in [(7, 2, ("127.0.0.1:9",), (2.0,), dict(shift=1.0))] + ([(3, 2, ("127.0.0.1:9", "127.0.0.1:11"), (), {})] if ctx.thorough else []):
        sp = ProblemSpec(dict(names=["a", "b"], bounds=[[0, 1]] * 2)); X = g.random((n, 2)); sp.set_samples(X)
        r = ctx.call(lambda: sp.evaluate_distributed(dist_model, *a, nprocs=p, servers=srv, **k), timeout=60)
        if is_err(r, "OSError", "TimeoutError", "ImportError") or (is_err(r) and "athos" in r.msg): ctx.notes.append(f"distributed evaluation not available here: {r}"); return
        ctx.count("distributed")
        if is_err(r) or not np.allclose(sp.results, dist_model(X, *a, **k)): ctx.bad("distributed-differs", dict(rows=n, nprocs=p, args=[a, k]), r)


def run(ctx):
    ctx.model("MCParallel", f"SPECIFICATION Spec\nCONSTANTS\n NMAX = {7 if ctx.thorough else 5}\n PMAX = {5 if ctx.thorough else 4}\nINVARIANTS Partition Balanced InOrder Same TaskCount\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n", cover=["Take", "Finish", "Collect"], workers=6)
    c1, m1 = evaluations(ctx)
    c2, m2 = sobol_runs(ctx)
    st = []
    if c1:
        d = copy.deepcopy(next((c for c in c1 if c["n"] > 2), c1[0])); d["res"] = d["res"][::-1] if d["n"] > 1 else [0]; st.append((d, "row-order"))
    if c2:
        d = copy.deepcopy(c2[0]); d["got"] = d["got"][1:]; st.append((d, "index-missing"))
    for (c, x), v in zip(zip(c1 + c2, m1 + m2), ctx.trace("ParallelTrace", c1 + c2, selftest=st)):
        if not v["ok"]: ctx.bad(v["clause"], dict(x, recorded=c), v)
        if ctx.full: return
    outputs(ctx); distributed(ctx)
