"""C22: command line (spec/Cli.tla)."""
import copy, importlib, json, os, runpy, subprocess, sys
from vlib import *
import numpy as np, pandas as pd
from SALib.util import read_param_file
from SALib.sample import sobol as s_sobol, saltelli as s_saltelli, latin as s_latin, morris as s_morris, fast_sampler as s_fast, finite_diff as s_fd, ff as s_ff
from SALib.analyze import sobol, morris, fast, rbd_fast, delta, dgsm, ff, pawn, rsa, discrepancy, hdmr, enhanced_hdmr

SM = dict(sobol=s_sobol, saltelli=s_saltelli, latin=s_latin, morris=s_morris, fast_sampler=s_fast, finite_diff=s_fd, ff=s_ff)
AM = dict(sobol=sobol, morris=morris, fast=fast, rbd_fast=rbd_fast, delta=delta, dgsm=dgsm, ff=ff, pawn=pawn, rsa=rsa, discrepancy=discrepancy, hdmr=hdmr, enhanced_hdmr=enhanced_hdmr)
NO_X = {"sobol", "fast"}


def read(ty, text):
    if text == "none": return None
    return {"int": int, "float": float, "str": str, "order": lambda t: t == "2", "truth": lambda t: t.lower() == "true", "flag": lambda t: t != "false", "01": lambda t: bool(int(t)),
            "json": lambda t: json.loads(t) if t.strip().startswith("{") else json.load(open(t))}[ty](text)


def cli(ctx, way, action, method, argv):
    """stdout of a command line run (in process or not)"""
    if way == "process":
        mod = f"SALib.{action}.{method}" + (".morris" if method == "morris" and action == "sample" else "")
        cmd = [sys.executable, "-m", "SALib.scripts.salib", action, method] if len(argv) % 2 else [sys.executable, "-m", mod]
        p = subprocess.run(cmd + argv, capture_output=True, text=True, cwd=ctx.tmp, timeout=120, env=dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONWARNINGS="ignore"))
        return p.stdout if p.returncode == 0 else Err(RuntimeError(f"exit {p.returncode}: {p.stderr[-300:]}"))
    def go():
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            old = sys.argv
            try:
                if way == "salib":
                    sys.argv = ["salib", action, method] + argv
                    from SALib.scripts.salib import main
                    main()
                else:
                    sys.argv = ["m"] + argv
                    runpy.run_module(f"SALib.{action}.{method}" + (".morris" if method == "morris" and action == "sample" else ""), run_name="__main__")
            finally: sys.argv = old
        return buf.getvalue()
    return ctx.call(go)


def pfile(ctx, rnd, k, groups=False, D=None):
    D = D or rnd.randint(2, 4)
    path = os.path.join(ctx.tmp, f"p{k}.txt")
    d = rnd.choice([" ", ",", ";", "\t"])
    with open(path, "w") as f:
        if rnd.random() < .6: f.write("# name lower_bound upper_bound\n")
        lab = rnd.choice([["g1", "g2", "g1", "g3"], ["b", "a", "a", "b"]])
        for j in range(D):
            lo = rnd.choice([0.0, -3.25, 1.5]); f.write(d.join([f"x{D - j}", str(lo), str(lo + rnd.choice([1.0, 2.5]))] + ([lab[j]] if groups and D > 1 else [])) + "\n")
    return path, D


def run(ctx):
    big, rnd, g = ctx.thorough, ctx.rnd, ctx.nprng
    ctx.model("MCCli", "SPECIFICATION MCSpec\nINVARIANTS Unambiguous NeverStuck AllRead Effect\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", cover=["TakeOption"])
    cases, meta = [], []
    def emit(action, method, opts, ctxd, way):
        """opts: list of (flag spellings, text or None)"""
        opts = list(opts); rnd.shuffle(opts)
        toks, argv = [], []
        for flags, v in opts:
            f = rnd.choice(flags)
            toks.append([f, v if v is not None else "true"])
            if v is None: argv.append(f)
            elif f.startswith("--") and rnd.random() < .5 or (v.startswith("-") or v in (" ", "")) and f.startswith("--"): argv.append(f"{f}={v}")
            else: argv += [f, v]
        cases.append(dict(action=action, method=method, tokens=toks)); meta.append((argv, ctxd, way))
    def maybe(flags, vals, pr=.5): return [(flags, str(rnd.choice(vals)))] if rnd.random() < pr else []
    ways = ["salib", "salib", "module"]
    for k in range(260 if big else 112):           # ---- sampling
        m = list(SM)[k % 7]
        pf, D = pfile(ctx, rnd, f"s{k}", groups=m in ("sobol", "saltelli", "morris") and rnd.random() < .5, D=rnd.choice([2, 2, 4]) if m == "ff" else None)
        out = os.path.join(ctx.tmp, f"out{k}.txt"); seed = [(("-s", "--seed"), str(rnd.choice([0, 1, 7, 12345])))]
        N = {"sobol": [4, 8, 16], "saltelli": [4, 8, 16], "latin": [5, 20], "morris": [4, 6], "fast_sampler": [70, 91], "finite_diff": [3, 8], "ff": [10]}[m]
        o = [(("-n", "--samples"), str(rnd.choice(N))), (("-p", "--paramfile"), pf), (("-o", "--output"), out)]
        o += maybe(("--delimiter",), [",", " ", ";", "\t"], .6) + maybe(("--precision",), [3, 6, 12, 15], .5)
        if m == "sobol":
            scr = maybe(("--scramble",), [0, 1]); sk = maybe(("--skip-values",), [0, 16, 32], .4)
            o += maybe(("--max-order",), [1, 2]) + scr + sk + seed
        if m == "saltelli": o += maybe(("--max-order",), [1, 2]) + maybe(("--skip-values",), [0, 16, 64])
        if m == "morris":
            n = int(o[0][1]); ko = maybe(("-k", "--k-optimal"), [2, 3], .6)
            o += maybe(("-l", "--levels"), [2, 4, 6]) + ko + maybe(("-lo", "--local"), ["true", "True", "false", "no"], .6) + seed
        if m == "fast_sampler": o += maybe(("-M", "--m-coef"), [2, 3, 4]) + seed
        if m == "finite_diff": o += maybe(("-d", "--delta"), [.001, .05, .1]) + seed
        if m in ("latin", "ff"): o += seed
        if k % 10 == 9:                              # spoiled
            w = rnd.choice(["drop", "flag", "order", "repeat"])
            if w == "drop": o.pop(rnd.randrange(3))
            elif w == "flag": o.append((("--no-such-option",), "1"))
            elif w == "order" and m in ("sobol", "saltelli"): o.append((("--max-order",), "3"))
            else: o.append((("-n", "--samples"), str(N[0])))
        emit("sample", m, o, dict(out=out), "process" if k in (0, 15) or big and k % 40 == 3 else rnd.choice(ways))
    data = {}
    for k in range(240 if big else 108):           # ---- analysis
        m = list(AM)[k % 12]; D1 = m in ("pawn", "rsa", "discrepancy", "rbd_fast", "delta", "dgsm") and rnd.random() < .2
        pf, D = pfile(ctx, rnd, f"a{k}", groups=m in ("sobol", "morris", "pawn", "rsa", "discrepancy") and rnd.random() < .4, D=1 if D1 else rnd.choice([2, 4]) if m == "ff" else 3 if "hdmr" in m else None)
        p = read_param_file(pf); lv = rnd.choice([4, 4, 6]); order = rnd.choice([1, 2]); seed = [(("-s", "--seed"), str(rnd.choice([0, 1, 9])))]
        X = None
        try:
            if m == "sobol": X = s_sobol.sample(p, 8, calc_second_order=order == 2, seed=k)
            elif m == "morris": X = s_morris.sample(copy.deepcopy(p), 4, num_levels=lv, seed=k)
            elif m == "fast": X = s_fast.sample(p, 65, seed=k)
            elif m == "dgsm": X = s_fd.sample(p, 6, seed=k)
            elif m == "ff": X = s_ff.sample(copy.deepcopy(p), seed=k)
            else: X = s_latin.sample(p, 320 if "hdmr" in m else 60, seed=k)
        except Exception as e:
            ctx.bad("sampler-fails", dict(method=m, problem=p), Err(e)); continue
        C = rnd.randint(1, 4); col = rnd.randrange(C)
        Y = g.normal(size=(len(X), C)) + np.sin(X).sum(1)[:, None] * np.arange(1, C + 1)
        dlm = rnd.choice([" ", " ", ",", ";", "\t"])
        fx, fy = (os.path.join(ctx.tmp, f"{v}{k}.txt") for v in "XY")
        np.savetxt(fx, X, delimiter=dlm, fmt="%.17e"); np.savetxt(fy, Y, delimiter=dlm, fmt="%.17e")
        o = [(("-p", "--paramfile"), pf), (("-Y", "--model-output-file"), fy)] + ([] if m in NO_X else [(("-X", "--model-input-file"), fx)])
        if dlm != " " or rnd.random() < .3: o.append((("--delimiter",), dlm))
        if col or rnd.random() < .5: o.append((("-c", "--column"), str(col)))
        R = maybe(("-r", "--resamples"), [3, 10, 25], .8)
        if m == "sobol": o += ([(("--max-order",), str(order))] if order == 1 or rnd.random() < .5 else []) + R + ([(("--parallel",), None)] + maybe(("--processors",), [1, 2, 3], .9) if rnd.random() < .3 else []) + seed
        if m == "morris": o += R + ([(("-l", "--levels"), str(lv))] if lv != 4 or rnd.random() < .5 else []) + maybe(("--scaled",), ["true", "True", "false", "0"], .7) + seed
        if m in ("fast", "rbd_fast"): o += R + maybe(("-M", "--M"), [2, 3, 4], .7) + seed
        sav = os.path.join(ctx.tmp, f"boot{k}.csv")
        if m == "delta":
            bs = json.dumps({n: 3 + 2 * i for i, n in enumerate(p["names"])})
            if rnd.random() < .5:
                fb = os.path.join(ctx.tmp, f"bins{k}.json"); open(fb, "w").write(bs); bs = fb
            o += ([(("--bins_specs",), bs)] if rnd.random() < .6 else []) + R + maybe(("-m", "--method"), ["all", "delta", "sobol"], .7) + maybe(("--y_resamples",), [30, 60], .5) + seed
        if m == "dgsm": o += R + seed
        if m == "ff": o += ([(("--max-order",), str(order))] if order == 1 or rnd.random() < .5 else []) + seed
        if m == "pawn": o += maybe(("-S", "--slices"), [3, 7, 10, 30], .7) + seed
        if m == "rsa": o += maybe(("-b", "--bins"), [4, 9, 20, 25, 45], .8) + maybe(("-t", "--target"), ["X", "Y"], .7) + seed
        if m == "discrepancy": o += seed
        if m == "hdmr": o += maybe(("-mor", "--maxorder"), [1, 2, 3]) + maybe(("-mit", "--maxiter"), [1, 5]) + maybe(("-m", "--m-int"), [2, 3]) + maybe(("-K", "--K-bootstrap"), [1, 2, 3], .8) + maybe(("-R", "--R-subsample"), [300, 310]) + maybe(("-a", "--alpha"), [.9, .99]) + maybe(("-lambda", "--lambdax"), [.001, .1]) + seed
        if m == "enhanced_hdmr": o += maybe(("-mor", "--max-order"), [1, 2, 3]) + maybe(("-por", "--poly-order"), [2, 3]) + maybe(("-K", "--bootstrap"), [2, 3], .9) + maybe(("-R", "--subset"), [300, 310]) + maybe(("-mit", "--max-iter"), [100, 150]) + maybe(("-l2", "--l2-penalty"), [.001, .1]) + maybe(("-a", "--alpha"), [.9, .99]) + maybe(("-ext", "--extended-base"), ["true", "false"]) + maybe(("-print", "--print-to-console"), ["true", "True"], .9) + maybe(("-emul", "--return-emulator"), ["true", "false"], .3) + seed
        if m in ("rsa", "discrepancy", "pawn", "ff") and rnd.random() < .4: o = [x for x in o if x not in seed]
        if k % 12 == 7 and rnd.random() < .8 or k % 25 == 24:
            w = rnd.choice(["drop", "flag", "repeat"])
            if w == "drop": o.pop(rnd.randrange(2 + (m not in NO_X)))
            elif w == "flag": o.append((("--no-such-option",), "1"))
            else: o.append((("-c", "--column"), str(col)))
        emit("analyze", m, o, dict(sav=sav), "process" if k in (1, 14) or big and k % 50 == 4 else "salib" if any(x[1] is None for x in o) else rnd.choice(ways))
    exp = ctx.oracle("CliOracle", cases)
    for k, (c, (argv, cd, way), e) in enumerate(zip(cases, meta, exp)):
        A, m = c["action"], c["method"]
        desc = dict(command=[A, m] + argv, way=way, means=e)
        ctx.count(A + ("" if e["status"] == "ok" else "-rejected")); ctx.samples += 1
        r = cli(ctx, way, A, m, argv)
        if e["status"] != "ok":
            if not is_err(r): ctx.bad("accepts-bad-command", desc, r)
            continue
        if is_err(r): ctx.bad("command-fails", desc, r.tb if way != "process" else r); 
        else:
            kw = {x["to"]: read(x["ty"], x["text"]) for x in e["call"]}
            pf = kw.pop("paramfile"); dl = kw.pop("delimiter")
            p = read_param_file(pf)
            if A == "sample":
                out, prec, N = kw.pop("output"), kw.pop("precision"), kw.pop("N")
                want = ctx.call(SM[m].sample, p, **kw) if m == "ff" else ctx.call(SM[m].sample, p, N, **kw)
                if is_err(want): ctx.bad("library-call-fails", desc, want); continue
                try:
                    lines = [l for l in open(out).read().split("\n") if l]
                    T = [l.split(dl) for l in lines]; V = np.array([[float(v) for v in l] for l in T])
                    if V.shape != want.shape: ctx.bad("file-shape", desc, f"{V.shape} for {want.shape}"); continue
                    tol = .51 * 10.0 ** -prec * 10.0 ** np.floor(np.log10(np.maximum(np.abs(want), 1e-300))) + 1e-15
                    if (np.abs(V - want) > tol).any(): ctx.bad("file-values", desc, f"largest difference {np.abs(V - want).max()}"); continue
                    if any(len(v.split("e")[0].split(".")[-1]) != prec for l in T for v in l): ctx.bad("file-precision", desc, lines[0]); continue
                except Exception as x: ctx.bad("file-unreadable", desc, Err(x)); continue
            else:
                Y = np.loadtxt(kw.pop("Y"), delimiter=dl, usecols=(kw.pop("column"),))
                a = [Y] if m in NO_X else [np.loadtxt(kw.pop("X"), delimiter=dl, ndmin=2), Y]
                def lib():
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        S = AM[m].analyze(p, *a, **dict(dict(print_to_console=True), **kw))
                    return S, buf.getvalue()
                w = ctx.call(lib)
                if is_err(w): ctx.bad("library-call-fails", desc, w); continue
                S, text = w
                if r.strip() != text.strip(): ctx.bad("printed-indices", desc, f"command printed\n{r[-900:]}\nlibrary\n{text[-900:]}"); continue
                if m == "delta":
                    rows = {l.split()[0]: l.split() for l in r.split("\n") if l.split() and l.split()[0] in p["names"]}
                    lost = [(q, n) for q in S if q.startswith(("S1", "delta")) and q in r.split("\n")[0] for n, v in zip(p["names"], S[q]) if n not in rows or not any(close(t, v, 1e-4, 1e-6) for t in rows[n][1:] if t == "NaN" or t.replace(".", "").replace("-", "").replace("e", "").isdigit())]
                    if lost: ctx.bad("printed-values", desc, f"{lost} in {r[-900:]}"); continue
                elif m not in ("hdmr", "enhanced_hdmr"):    # what is printed is the result
                    dfs = S.to_df(); dfs = dfs if isinstance(dfs, (list, tuple)) else [dfs]
                    if any(str(d).strip() not in r for d in dfs): ctx.bad("printed-frames", desc, r[-900:]); continue
                elif m == "hdmr" and not all(n in r for n in p["names"]): ctx.bad("printed-names", desc, r[-900:]); continue
            ctx.traces += 1
        if ctx.full: return
