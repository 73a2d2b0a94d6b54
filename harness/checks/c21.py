"""C21: parameter files (spec/ParamFile.tla)."""
import os
from vlib import *
from SALib.util import read_param_file

NAMES = [lambda i: f"x{i + 1}", lambda i: f"param_{i}", lambda i: "abcdefghijklmnopqrstuvwxyz"[i % 26], lambda i: f"X{9 - i % 9}{i}", lambda i: f"x.{i}", lambda i: f"NA{i}" if i else "NA", lambda i: f"{i}e{i}", lambda i: f"pump#{i}", lambda i: f"k%{i}/{i}#"]
SPACED = [lambda i: f"Test {i}", lambda i: f"a b {i} c"]
QUOTED = [lambda i: f"p{i}@k", lambda i: f"@{i}", lambda i: f"q {i}@", lambda i: f"O^Brien {i}@", lambda i: f"it^s{i}", lambda i: f"{i} ^in^"]          # @ = the delimiter itself, ^ = the quotation mark not used
DISTS = ["unif", "norm", "triang", "lognorm", "logunif", "truncnorm", "weibull"]
NUM = [lambda v: str(int(v)), lambda v: f"{v:.3f}", lambda v: f"{v:.3e}", lambda v: f"{v:+.2f}", lambda v: f"{v:.2E}", lambda v: f"{v:.6g}", lambda v: f"{int(v)}.", lambda v: f"{v:.1f}".replace("0.", ".", 1) if abs(v) < 1 else repr(v)]
COMMENTS = ["#", "# comment", "  # name, lower; upper", "#name,lower_bound,upper_bound,group,dist", "# it's \"quoted", "#\ttabs\there", "# a b c d e f", "#x1,0,1,g,unif", "# 'one", "#;;;;;;"]


def make(rnd, k):
    d = [",", " ", "\t", ";"][k % 4]
    n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 8, 13, 40])
    style = rnd.choice(["plain"] * 3 + ["spaced", "quoted"])
    if style == "spaced" and d == " ": style = "plain"
    nm = rnd.choice({"plain": NAMES, "spaced": SPACED, "quoted": QUOTED}[style])
    quote = rnd.choice("'\"") if style == "quoted" else ""
    cols = rnd.choice([3, 4, 5, "mix", "mix"])
    gl = rnd.choice([["Group_1", "Group_2", "g1"], ["NA"], ["NA", "z"], ["self"], ["self", "NA", None], ["one"], ["b", "a", "c"], ["", "k", "m"], ["NAT", "NA", "g"], ["NA1", "NA2", "ANA"], ["na", "NA", "Na"], ["nan", "None", "0"], ["G", "g", "G1"], ["set#1", "set#2", "#3"]])
    dl = rnd.choice([["unif"], DISTS, ["unif", "norm"], DISTS + [""], ["uniform"], ["unif2", "unif"], ["Unif"], ["UNIF", "unif"]])
    num = rnd.choice(NUM)
    comments = rnd.choice([0, 0, .2, .6]); blank = rnd.choice([0, 0, .2]); pad = rnd.random() < .3
    lines = []
    for i in range(n):
        while rnd.random() < comments: lines.append(rnd.choice(COMMENTS))
        if rnd.random() < blank: lines.append(rnd.choice(["", "  "]))
        lo = rnd.choice([rnd.uniform(-9, 9), rnd.uniform(-1, 1), rnd.uniform(-1e5, 1e5)]); hi = lo + rnd.uniform(1.5, 9)
        name = nm(i).replace("@", d).replace("^", {"'": '"', '"': "'", "": ""}[quote])
        m = cols if cols != "mix" else rnd.choice([3, 4, 5])
        f = [quote + name + quote, num(lo), num(hi)]
        if m > 3:
            g = rnd.choice(gl); g = (name if d not in name else "own") if g == "self" else "NA" if g is None else g
            f.append("" if g == "" and d == " " else g)
            if d == " " and f[-1] == "": f[-1] = "NA"
        if m > 4:
            v = rnd.choice(dl); f.append("unif" if v == "" and d == " " else v)
        sep = d + (" " * rnd.randint(0, 2) if pad else "")
        lines.append((" " if pad and rnd.random() < .2 else "") + sep.join(f) + (" " if d == " " and pad and rnd.random() < .3 else ""))
    while rnd.random() < comments: lines.append(rnd.choice(COMMENTS))
    return lines, d, n


def run(ctx):
    big = ctx.thorough
    L = 7 if big else 5
    ctx.model("MCParamFile", f'SPECIFICATION MCSpec\nCONSTANTS\n L = {L}\n Alphabet = {{"a", "1", ",", "\\n", "#", " "}}\nINVARIANTS TwoReadingsAgree RowPerLine Parallel\n' + ("PROPERTY Terminates\n" if not big else "") + "CHECK_DEADLOCK FALSE\n",
              cover=["Comment", "LineStart", "FieldStart", "InField", "LastLine"], timeout=800)
    rnd = ctx.rnd
    cases, meta = [], []
    for k in range(1600 if big else 480):
        lines, d, n = make(rnd, k)
        if k % 12 == 11 and n > 1:        # break one row
            at = rnd.choice([i for i, l in enumerate(lines) if l.strip() and not l.strip().startswith("#")])
            f = lines[at].split(d)
            if rnd.random() < .5: lines[at] = d.join(f[:-1][:2])
            else: f[1 if len(f) > 1 else 0] = "low"; lines[at] = d.join(f)
        text = "\n".join(lines) + ("\n" if rnd.random() < .7 else "")
        cases.append(dict(chars=list(text), delim=d)); meta.append(rnd.choice([None, None, d, ",;\t " if rnd.random() < .5 else d]))
    exp = ctx.oracle("ParamOracle", cases, par=6)
    path = os.path.join(ctx.tmp, "params.txt")
    J = lambda s: "".join(s)
    for k, (c, dl, e) in enumerate(zip(cases, meta, exp)):
        text = J(c["chars"])
        with open(path, "w", newline="") as f: f.write(text.replace("\n", "\r\n") if k % 17 == 3 else text)
        p = ctx.call(read_param_file, path) if dl is None and k % 2 else ctx.call(read_param_file, path, delimiter=dl)
        desc = dict(text=text, delimiter=dl, means=e)
        ctx.count(e["status"]); ctx.samples += 1
        if e["status"] != "ok":
            if e["status"] == "one-group" and text.count("\n") and len([l for l in text.split("\n") if l.strip() and not l.strip().startswith("#")]) == 1: continue   # one parameter: not specified
            if not is_err(p): ctx.bad("accepts-" + e["status"], desc, p)
        elif is_err(p): ctx.bad("cannot-read", desc, p)
        else:
            got = {q: p.get(q) for q in ("names", "groups", "dists", "num_vars", "bounds")}
            want = dict(names=[J(s) for s in e["names"]], groups=[J(s) for s in e["groups"]] or None, dists=[J(s) for s in e["dists"]] or None, num_vars=len(e["names"]),
                        bounds=[[float(J(a)), float(J(b))] for a, b in zip(e["lower"], e["upper"])])
            for q in want:
                if q == "bounds":
                    try: ok = [list(map(float, b)) for b in got[q]] == want[q]
                    except Exception: ok = False
                else: ok = (got[q] if got[q] is None or q == "num_vars" else list(got[q])) == want[q]
                if not ok: ctx.bad(q, desc, f"got {got[q]}, the file says {want[q]}"); break
            ctx.traces += 1
        if ctx.full: return
