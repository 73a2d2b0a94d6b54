"""C19: a seed fully determines samples and analyses (spec/RandomStreams.tla)."""
import pickle, random as pyrandom, hashlib, time
from vlib import *
import numpy as np
import randlib


def run(ctx):
    L = 5 if ctx.thorough else 4
    cfg = lambda v: f"SPECIFICATION Spec\nCONSTANTS\n L = {L}\n VARIANT = \"{v}\"\nINVARIANTS Guarantee\nCHECK_DEADLOCK FALSE\n"
    ctx.model("MCRandomStreams", cfg("design"), cover=["Sample", "AnalyzeGlobal", "AnalyzePrivate", "UserDraw", "UserSeed"], workers=6)
    for v in ("truthy", "sampler-on-global", "cached-generator"):
        ok, out = ctx.model("MCRandomStreams", cfg(v), expect_ok=False, workers=4)
        if ok or "Guarantee is violated" not in out: raise MachineryError(f"the wrong design {v} was not refuted:\n" + out[-1500:])
        ctx.count("refuted-wrong-design")
    # other processes (different string hashing, different entropy) compute the same digests
    procs = []
    for h in ("1", "7") if ctx.thorough else ("1",):
        procs.append(subprocess.Popen([sys.executable, os.path.join(ROOT, "harness", "randlib.py")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=h)))
    C = randlib.calls(); names = list(C)
    seeds = [0, 1, 42, 2 ** 32 - 1, 2 ** 16 + 1, 2 ** 31 + 42, 2 ** 31 - 1]
    ids, gids = {}, {}
    def gid():
        s = np.random.get_state(); return gids.setdefault(hashlib.sha256(pickle.dumps((s[0], s[1].tobytes(), s[2:], pyrandom.getstate()))).hexdigest(), len(gids))
    def oid(d): return ids.setdefault(d, len(ids))
    log, calls = [], []
    def call(nm, seed, label=None):
        kind, rand, f = C[nm]
        g0 = gid(); r = ctx.call(f, seed); g1 = gid()
        d = oid(randlib.digest(r) if not is_err(r) else "error:" + r.type + r.msg[:50])
        log.append(dict(m=names.index(nm), seed=label if label is not None else (-1 if seed is None else seeds.index(seed)), out=d, g0=g0, g1=g1, sampler=kind == "sampler", random=rand))
        calls.append([nm, repr(seed)]); ctx.count(kind)
        if is_err(r): ctx.bad("valid-call-fails", dict(call=nm, seed=repr(seed)), r)
        return d
    rnd = ctx.rnd
    fast = []
    for nm in names:
        t = time.time(); call(nm, 0); call(nm, 0)
        if time.time() - t < .1: fast.append(nm)
    for nm in names:
        for s in (1, 42) if nm not in fast and not ctx.thorough else seeds[1:]: call(nm, s)
        if ctx.full: return
    def noise():
        a = rnd.randrange(5)
        if a == 0: np.random.seed(rnd.choice([0, 1, 42, 5]))
        elif a == 1: np.random.random(rnd.choice([1, 3, 700]))
        elif a == 2: pyrandom.seed(rnd.random())
        elif a == 3: call(rnd.choice(fast), None)
        else: np.random.default_rng(0).random()
    end = time.time() + (90 if ctx.thorough else 14)
    while time.time() < end and not ctx.full:
        for _ in range(rnd.randrange(3)): noise()
        call(rnd.choice(fast if rnd.random() < .9 else names), rnd.choice(seeds + [0]))
    # a generator object freshly built from the same seed is as good as the seed itself: reproducible, global generator untouched
    for nm in names:
        if C[nm][0] == "sampler" and nm != "saltelli":
            for k in (3, 4, 3):
                call(nm, np.random.default_rng(k), label=100 + k)
                if rnd.random() < .5: noise()
    # one history per chunk for TLC (pairs are compared within it): by method, in order of execution
    cases, meta = [], []
    for i in range(0, len(names), 6):
        idx = [j for j, e in enumerate(log) if i <= e["m"] < i + 6]
        if idx: cases.append(dict(log=[log[j] for j in idx])); meta.append([calls[j] for j in idx])
    st = []
    d = json.loads(json.dumps(cases[0])); e = next(x for x in d["log"][::-1] if x["seed"] == 0); e["out"] = 10 ** 6; st.append((d, "seed-does-not-determine-result"))
    d = json.loads(json.dumps(cases[0])); e = next(x for x in d["log"] if x["sampler"]); e["g1"] = 10 ** 6; st.append((d, "sampler-touches-global-generator"))
    for (c, m), v in zip(zip(cases, meta), ctx.trace("RandomTrace", cases, selftest=st)):
        if not v["ok"]: ctx.bad(v["clause"], dict(call=m[v["at"] - 1], entry=c["log"][v["at"] - 1], history=m[max(0, v["at"] - 12):v["at"]]), v)
    mine = {(e["m"], e["seed"]): e["out"] for e in log}
    inv = {v: k for k, v in ids.items()}
    for p in procs:
        o, e = p.communicate(timeout=300)
        if p.returncode: raise MachineryError("second process failed: " + e[-1500:])
        for key, dg in json.loads(o.strip().splitlines()[-1]).items():
            nm, s = key.rsplit("/", 1); ctx.count("other-process")
            got = mine.get((names.index(nm), seeds.index(int(s))))
            if got is not None and inv[got] != dg: ctx.bad("another-process-differs", dict(call=nm, seed=s), (inv[got], dg))
