"""Shared machinery of the conformance checks.

A check is `harness/checks/<id>.py` with a function run(ctx).  It uses
  ctx.model(...)   exhaustive TLC run of a design specification (spec/*.tla)
  ctx.oracle(...)  TLC evaluates the specification on concrete cases and returns
                   the expected observable outcome of each (JSON in, JSON out)
  ctx.trace(...)   TLC validates recorded executions against the specification and
                   returns a total verdict (accepted / first failing clause) per case
  ctx.call(...)    runs code under test, turning exceptions and hangs into values
  ctx.bad(...)     records a violation with a replay file
"""
import contextlib, io, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """Failure of the verification machinery itself (never of the code under test)."""


class CodeHang(BaseException):
    pass


class Err:
    """Outcome of a call of the code under test that raised."""
    def __init__(self, e):
        self.type = type(e).__name__
        self.msg = str(e)[:300]
        self.mro = [c.__name__ for c in type(e).__mro__]
        self.tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    def __repr__(self):
        return f"<{self.type}: {self.msg[:120]!r}>"


def is_err(x, *types):
    return isinstance(x, Err) and (not types or any(t in x.mro for t in types))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rnd = random.Random(f"{pid}-{seed}")
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.distinct = self.transitions = 0
        self.traces = self.samples = 0
        self.selftests = 0
        self.models, self.notes, self.assumptions = [], [], []
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        self.counters = {}
        self.extra = {}
        self.max_viol = int(os.environ.get("VERIF_MAXV", "5"))
        import numpy as np
        self.np = np
        self.nprng = np.random.default_rng([seed, int(pid[1:])])

    # ---------- TLC ----------
    def _tlc(self, module, cfg, env=None, workers=1, timeout=600, args=(), heap="3g"):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
               "-config", "M.cfg", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "st"),
               "-lncheck", "final", *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out after {timeout}s on {module}")
        out = p.stdout + p.stderr
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        return p.returncode, out, gen, dist, d

    def model(self, module, cfg, workers=4, timeout=600, expect_ok=True, args=(), cover=None):
        """Exhaustive (or -simulate) model checking of a design specification."""
        t = time.time()
        extra = list(args)
        if cover:
            extra += ["-coverage", "1"]
        rc, out, gen, dist, d = self._tlc(module, cfg, workers=workers, timeout=timeout, args=extra)
        ok = rc == 0 and ("No error has been found" in out or "Finished in" in out or "-simulate" in extra)
        if expect_ok and not ok:
            raise MachineryError(f"model checking of {module} failed:\n{out[-3000:]}")
        if not expect_ok and not ok and not re.search(r"is violated|were violated|was violated|Deadlock reached", out):
            raise MachineryError(f"model checking of {module} failed otherwise than by refutation:\n{out[-3000:]}")
        if cover:
            for a in cover:
                mm = re.findall(r"<%s line[^>]*>: (\d+):(\d+)" % re.escape(a), out)
                if not mm or not any(int(y) > 0 for x, y in mm):
                    raise MachineryError(f"vacuous model: action {a} of {module} never taken")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "distinct_states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})
        shutil.rmtree(d, ignore_errors=True)
        return ok, out

    def _batches(self, cases, size):
        return [cases[i:i + size] for i in range(0, len(cases), size)]

    def oracle(self, module, cases, cfg="SPECIFICATION OSpec\nCHECK_DEADLOCK FALSE\n", timeout=800, par=4, batch=None, count=True):
        """Expected outcomes of `cases` computed by TLC from the specification."""
        if not cases:
            return []
        batch = batch or max(1, -(-len(cases) // par))
        parts = self._batches(cases, batch)
        from concurrent.futures import ThreadPoolExecutor

        def one(part):
            fi = tempfile.mktemp(suffix=".json", dir=self.tmp)
            fo = fi + ".out"
            with open(fi, "w") as f:
                json.dump(part, f)
            rc, out, gen, dist, d = self._tlc(module, cfg, env={"CASES": fi, "OUT": fo}, timeout=timeout)
            if rc != 0 or not os.path.exists(fo):
                raise MachineryError(f"oracle {module} failed:\n{out[-3000:]}")
            with open(fo) as f:
                res = json.load(f)
            shutil.rmtree(d, ignore_errors=True)
            if len(res) != len(part):
                raise MachineryError(f"oracle {module}: {len(res)} results for {len(part)} cases")
            return res, gen, dist
        with ThreadPoolExecutor(max_workers=par) as ex:
            rs = list(ex.map(one, parts))
        out = []
        for res, gen, dist in rs:
            out += res
            if count:
                self.states += dist
                self.transitions += gen
        return out

    def trace(self, module, cases, selftest=None, **kw):
        """Validate recorded executions.  Each result is {"ok":bool,"clause":str,"at":int}.
        `selftest`: list of (corrupted case, expected clause or None) which must be rejected."""
        st = [c for c, _ in (selftest or [])]
        res = self.oracle(module, list(cases) + st, **kw)
        main, bad = res[:len(cases)], res[len(cases):]
        for (c, clause), r in zip(selftest or [], bad):
            if r["ok"]:
                raise MachineryError(f"binding self-test: corrupted trace accepted by {module} (expected {clause})")
            if clause and r["clause"] != clause:
                if any(not x["ok"] for x in main):
                    continue      # corrupted copies of recordings that are themselves rejected
                raise MachineryError(f"binding self-test: corrupted trace rejected by {r['clause']!r}, expected {clause!r}")
            self.selftests += 1
        self.traces += len(cases)
        return main

    # ---------- code under test ----------
    def call(self, fn, *a, timeout=120, **k):
        def onalarm(sig, frame):
            raise CodeHang()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(timeout))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                    return fn(*a, **k)
        except CodeHang:
            return Err(TimeoutError(f"no answer within {timeout}s"))
        except SystemExit as e:
            return Err(RuntimeError(f"SystemExit({e.code})"))
        except Exception as e:
            return Err(e)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    # ---------- histories ----------
    def neighbours(self, *modules, p=.3):
        """Make part of the calls of modules' sample / analyze follow a neighbouring call: the same
        function on copies with other groups, names, bounds, rows, seed or options.  No property depends
        on what was called before, so whatever such a call leaves behind (caches, defaults, shared
        arrays) has to stay without effect."""
        for m in modules:
            for attr in ("sample", "analyze"):
                f = getattr(m, attr, None)
                if callable(f) and not hasattr(f, "_neighbours"):
                    setattr(m, attr, self._following(f, p))

    def _following(self, f, p):
        import functools, inspect
        rng = random.Random(f"{self.seed}/{f.__module__}")
        names = list(inspect.signature(f).parameters)
        busy = []
        def before(a, k):
            if busy or rng.random() >= p: return
            busy.append(1)
            try:
                self._neighbour(f, names, rng, a, k)
            finally:
                busy.pop()
        if "X" in f.__code__.co_varnames:      # ProblemSpec passes X to functions with such a variable
            def g(*a, **k):
                X = before(a, k)
                return f(*a, **k)
        else:
            def g(*a, **k):
                before(a, k)
                return f(*a, **k)
        g = functools.wraps(f)(g)
        g._neighbours = True
        return g

    def _neighbour(self, f, names, rng, a, k):
        import copy
        import numpy as np
        state = np.random.get_state()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter("ignore")
                k = dict(zip(names, a), **k)
                pr = {e: list(copy.deepcopy(v)) if isinstance(v, (list, tuple)) else copy.deepcopy(v) for e, v in dict(k["problem"]).items() if e in ("num_vars", "names", "bounds", "groups", "dists")}
                k = {e: copy.deepcopy(v) if isinstance(v, (np.ndarray, list, tuple)) else v for e, v in k.items() if e != "problem" and not isinstance(v, np.random.Generator)}
                for what in rng.sample(["groups", "ungroup", "names", "bounds", "rows", "seed", "option", "option"], 2):
                    if what == "groups" and pr.get("groups"): rng.shuffle(pr["groups"])
                    elif what == "groups": pr["groups"] = [f"g{rng.randrange(3)}" for _ in pr["names"]]
                    elif what == "ungroup": pr["groups"] = None
                    elif what == "names": pr["names"] = pr["names"][::-1]
                    elif what == "bounds" and not pr.get("dists"): pr["bounds"] = [[b[0] - 1, b[1] + 2] for b in pr["bounds"]]
                    elif what == "rows":
                        for e in ("X", "Y"):
                            if isinstance(k.get(e), np.ndarray): k[e] = k[e][::-1].copy()
                    elif what == "seed" and "seed" in names: k["seed"] = rng.randrange(1000)
                    elif what == "option":
                        alt = dict(M=[2, 3, 5], num_levels=[6, 8], S=[4, 7, 12], bins=[3, 6, 11], delta=[.2, .03], skip_values=[0, 4, 32], num_resamples=[7, 12], conf_level=[.8, .9],
                                   calc_second_order=[True, False], scramble=[False], second_order=[True, False], target=["X", "Y"], method=["CD", "L2-star", "quantile", "step", "balanced"], maxorder=[1, 2], max_order=[1, 2], m=[3, 4], poly_order=[2, 3])
                        o = [e for e in names if e in alt]
                        if o: e = rng.choice(o); k[e] = rng.choice(alt[e])
                f(pr, **k)
                self.count("neighbouring-calls")
        except Exception:
            pass
        finally:
            np.random.set_state(state)

    # ---------- verdicts ----------
    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def bad(self, clause, case, detail="", sig=None):
        """Record a violation.  `sig` identifies the failing input/call site for known findings."""
        sig = sig or clause
        for k in self.known:
            if k["sig"] == sig:
                if sig not in self.known_hits:
                    self.known_hits.append(sig)
                return
        self.violations.append({"clause": clause, "case": jsonable(case), "detail": str(detail)[:2000], "sig": sig})

    @property
    def full(self):
        return len(self.violations) >= self.max_viol

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        rdir = os.path.join(EVID, "replays")
        if os.path.isdir(rdir):
            for f in os.listdir(rdir):
                if f.startswith(self.pid + "-"):
                    os.remove(os.path.join(rdir, f))
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
        lines = []
        for i, v in enumerate(self.violations[:self.max_viol]):
            path = os.path.join(rdir, f"{self.pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, **v}, f, indent=1)
            lines.append(path)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.distinct or self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "samples": self.samples,
                "models": self.models, "cases": self.counters, "binding_self_tests": self.selftests,
                "notes": self.notes, **self.extra,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"replay": p, "clause": v["clause"]} for p, v in zip(lines, self.violations)],
            "assumptions": self.assumptions,
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}" + ("" if k["sig"] in self.known_hits else " (not reproduced in this run)"))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            for p, v in zip(lines, self.violations):
                print(f"VIOLATION property={self.pid} replay={p}")
                print(f"  clause: {v['clause']}  detail: {v['detail'][:400]}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={ev['coverage']['states']} traces={self.traces} samples={self.samples} cases={self.counters} wall={ev['wall_s']}s")
        return 0


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


# ---------- numeric helpers ----------
def rat(p):
    """<<num, den>> from TLC -> float; den 0 -> nan (num 0) or +-inf"""
    n, d = p
    if d == 0:
        return math.nan if n == 0 else math.copysign(math.inf, n)
    return n / d


def close(a, b, rtol=1e-9, atol=1e-9):
    try:
        a, b = float(a), float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def rgs(n, k=None):
    """all set partitions of 1..n as restricted growth strings"""
    out = []
    def rec(pre, mx):
        if len(pre) == n:
            if k is None or mx + 1 == k:
                out.append(list(pre))
            return
        for v in range(mx + 2):
            rec(pre + [v], max(mx, v))
    rec([], -1)
    return out


def same(a, b, rtol=0.0, atol=0.0):
    """equal results: dicts key by key, numbers (exactly, or within tolerance) with NaN equal to NaN, anything else by text"""
    import numpy as np
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
    except Exception:
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(u, v, rtol, atol) for u, v in zip(a, b))
        return str(a) == str(b)
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))
