------------------------------- MODULE Domain -------------------------------
(* The documented domain of each request.  A request is [op, f], f a record of *)
(* integers and strings; Violated(r) names the limits it breaks.  Real-valued  *)
(* arguments are in thousandths.  Values(op) lists, field by field, the values *)
(* at, just inside and just outside the limits; Start(op) is a request inside. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Lim(ok, name) == IF ok THEN {} ELSE {name}
ConfOK(c) == 0 < c /\ c < 1000
Confs == {-50, 0, 1, 500, 999, 1000, 1050}
SeedOK(s) == s \in {"none", "0", "1", "4294967295"}
Seeds == {"none", "0", "1", "4294967295", "-1", "1.5", "a"}

Methods == {"rbd_fast", "delta", "pawn", "rsa", "discrepancy"}
Samplers == {"sobol", "saltelli", "latin", "morris", "fast", "finite_diff", "ff"}
Grouping == {"sobol", "saltelli", "latin", "morris"}
GroupAn == {"sobol", "morris", "pawn", "rsa", "discrepancy"}

Values(op) ==
  CASE op = "morris" -> [N |-> {2, 3, 8, 11, 12}, lv |-> {-2, 0, 1, 2, 4, 8}, k |-> {-1, 0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13},
                         kt |-> {"int", "float"}, loc |-> {0, 1}, glen |-> {-1, 0, 1, 9}]
    [] op = "sampler_groups" -> [who |-> Grouping, glen |-> {-2, -1, 0, 1}]
    [] op = "analysis_groups" -> [who |-> GroupAn, glen |-> {-2, -1, 0, 1}]
    [] op = "sampler_seed" -> [who |-> Samplers \ {"saltelli"}, seed |-> Seeds]
    [] op = "analysis_seed" -> [who |-> {"sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "ff", "pawn", "hdmr", "enhanced_hdmr"}, seed |-> Seeds]
    [] op = "conf" -> [who |-> {"sobol", "morris", "fast", "rbd_fast", "delta", "dgsm"}, conf |-> Confs]
    [] op = "fast_sample" -> [M |-> {1, 2, 3, 4, 6}, over |-> {-3, -1, 0, 1, 2, 40}, D |-> {1, 2, 5}]
    [] op = "fast_analyze" -> [M |-> {1, 2, 4}, over |-> {-1, 0, 1, 2, 40}, D |-> {2, 3, 5}, extra |-> {-1, 0, 1}]
    [] op = "sobol_len" -> [G |-> {2, 3, 5}, so |-> {0, 1}, blocks |-> {0, 1, 2, 8}, extra |-> {-1, 0, 1, 2}]
    [] op = "morris_len" -> [D |-> {2, 3}, traj |-> {0, 2, 4}, xextra |-> {-1, 0, 1}, yextra |-> {-1, 0, 1}]
    [] op = "dgsm_len" -> [D |-> {2, 3}, blocks |-> {0, 2, 5}, xextra |-> {-1, 0, 1}, yextra |-> {-1, 0, 1}]
    [] op = "ff_len" -> [D |-> {2, 3, 5}, yextra |-> {-1, 0, 1}]
    [] op = "xy_len" -> [who |-> Methods \cup {"hdmr", "enhanced_hdmr"}, yextra |-> {-7, -1, 0, 1, 7}]
    [] op = "option" -> [what |-> {"discrepancy.method", "rsa.target", "delta.method", "morris_plot.sortby"},
                         value |-> {"WD", "CD", "MD", "L2-star", "X", "Y", "delta", "sobol", "all", "mu", "mu_star", "sigma", "mu_star_conf", "wd", "", "Z"}]
    [] op = "bounds" -> [who |-> Samplers, dist |-> {"default", "unif", "logunif", "triang2", "triang3", "norm", "truncnorm", "lognorm", "weibull2", "weibull3"},
                         b1 |-> {-1000, 0, 1000}, b2 |-> {-1000, -1, 0, 999, 1000, 2000}, extra |-> {-1, 0, 300, 1000}]
    [] op = "dists" -> [who |-> Samplers, dlen |-> {-1, 0, 1}, unknown |-> {0, 1}]
    [] op = "hdmr" -> [maxorder |-> {0, 1, 2, 3, 4}, maxiter |-> {0, 1, 1000, 1001}, m |-> {0, 2, 10, 11}, K |-> {0, 1, 100, 101},
                       R |-> {0, 299, 300, 320, 321}, alpha |-> {499, 500, 990, 1001}, lam |-> {-1, 0, 10, 10000, 10001}, rows |-> {299, 320}, D |-> {1, 2, 3}]
    [] op = "enhanced_hdmr" -> [maxorder |-> {0, 1, 2, 3, 4}, maxiter |-> {0, 1, 99, 1000, 1001}, ext |-> {0, 1}, m |-> {0, 1, 10, 11}, K |-> {0, 1, 100, 101},
                       R |-> {0, 299, 300, 320, 321}, alpha |-> {499, 500, 990, 1001}, lam |-> {-1, 0, 10, 10000, 10001}, rows |-> {299, 320}, D |-> {1, 2, 3}]
    [] op = "spec" -> [names |-> {2, 3, 4}, bounds |-> {2, 3, 4}]
Start(op) ==
  CASE op = "morris" -> [N |-> 12, lv |-> 4, k |-> 0, kt |-> "int", loc |-> 1, glen |-> 9]
    [] op = "sampler_groups" -> [who |-> "sobol", glen |-> 0]
    [] op = "analysis_groups" -> [who |-> "sobol", glen |-> 0]
    [] op = "sampler_seed" -> [who |-> "sobol", seed |-> "1"]
    [] op = "analysis_seed" -> [who |-> "sobol", seed |-> "1"]
    [] op = "conf" -> [who |-> "sobol", conf |-> 500]
    [] op = "fast_sample" -> [M |-> 4, over |-> 1, D |-> 2]
    [] op = "fast_analyze" -> [M |-> 4, over |-> 1, D |-> 2, extra |-> 0]
    [] op = "sobol_len" -> [G |-> 3, so |-> 1, blocks |-> 2, extra |-> 0]
    [] op = "morris_len" -> [D |-> 2, traj |-> 4, xextra |-> 0, yextra |-> 0]
    [] op = "dgsm_len" -> [D |-> 2, blocks |-> 5, xextra |-> 0, yextra |-> 0]
    [] op = "ff_len" -> [D |-> 3, yextra |-> 0]
    [] op = "xy_len" -> [who |-> "pawn", yextra |-> 0]
    [] op = "option" -> [what |-> "discrepancy.method", value |-> "WD"]
    [] op = "bounds" -> [who |-> "latin", dist |-> "unif", b1 |-> 0, b2 |-> 1000, extra |-> 1000]
    [] op = "dists" -> [who |-> "latin", dlen |-> 0, unknown |-> 0]
    [] op = "hdmr" -> [maxorder |-> 2, maxiter |-> 1, m |-> 2, K |-> 1, R |-> 320, alpha |-> 990, lam |-> 10, rows |-> 320, D |-> 3]
    [] op = "enhanced_hdmr" -> [maxorder |-> 2, maxiter |-> 1, ext |-> 0, m |-> 1, K |-> 1, R |-> 320, alpha |-> 990, lam |-> 10, rows |-> 320, D |-> 3]
    [] op = "spec" -> [names |-> 3, bounds |-> 3]
Ops == {"morris", "sampler_groups", "analysis_groups", "sampler_seed", "analysis_seed", "conf", "fast_sample", "fast_analyze",
        "sobol_len", "morris_len", "dgsm_len", "ff_len", "xy_len", "option", "bounds", "dists", "hdmr", "enhanced_hdmr", "spec"}

OptionOK(w, v) == v \in (CASE w = "discrepancy.method" -> {"WD", "CD", "MD", "L2-star"} [] w = "rsa.target" -> {"X", "Y"}
                           [] w = "delta.method" -> {"delta", "sobol", "all"} [] w = "morris_plot.sortby" -> {"mu", "mu_star", "sigma", "mu_star_conf"}
                          )
BoundsOK(d, a, b, e) ==
  CASE d \in {"default", "unif"} -> a < b
    [] d = "logunif" -> a > 0 /\ a < b
    [] d = "triang2" -> a > 0 /\ 0 <= e /\ e < 1000
    [] d = "triang3" -> a < b /\ 0 <= e /\ e < 1000
    [] d = "norm" -> b > 0
    [] d = "truncnorm" -> a < b /\ e > 0
    [] d = "lognorm" -> b > 0
    [] d \in {"weibull2", "weibull3"} -> a > 0 /\ b > 0

Hdmr(f, mlo, slack) ==
       Lim(f.maxorder \in 1..3, "maxorder") \cup Lim(f.m \in mlo..10, "m") \cup Lim(f.K \in 1..100, "K")
  \cup Lim(slack \/ f.maxiter \in 1..1000, "maxiter")
  \cup Lim((mlo = 1 /\ f.K = 1) \/ f.R = 0 \/ (300 <= f.R /\ f.R <= f.rows), "R")
  \cup Lim(500 <= f.alpha /\ f.alpha <= 1000, "alpha") \cup Lim(0 <= f.lam /\ f.lam <= 10000, "lambda")
  \cup Lim(f.rows >= 300, "rows") \cup Lim(f.D >= 2, "single-parameter")
Violated(r) ==
  LET f == r.f IN
  CASE r.op = "morris" -> Lim(f.lv >= 2, "levels") \cup Lim(f.k = 0 \/ f.k >= 2, "k>=2") \cup Lim(f.k = 0 \/ f.k < f.N, "k<N")
                          \cup Lim(f.k = 0 \/ f.kt = "int", "k-integer") \cup Lim(f.k = 0 \/ f.loc = 1 \/ f.k <= 10, "k<=10-exhaustive")
                          \cup Lim(f.glen \in {0, 9}, "groups-length")
    [] r.op \in {"sampler_groups", "analysis_groups"} -> Lim(f.glen = 0, "groups-length")
    [] r.op \in {"sampler_seed", "analysis_seed"} -> Lim(SeedOK(f.seed), "seed")
    [] r.op = "conf" -> Lim(ConfOK(f.conf), "confidence-level")
    [] r.op = "fast_sample" -> Lim(f.over > 0, "N>4M^2")
    [] r.op = "fast_analyze" -> Lim(f.over > 0, "N>4M^2") \cup Lim(f.extra = 0, "whole-runs")
    [] r.op = "sobol_len" -> Lim(f.blocks * (IF f.so = 1 THEN 2*f.G+2 ELSE f.G+2) + f.extra > 0
                                 /\ (f.blocks * (IF f.so = 1 THEN 2*f.G+2 ELSE f.G+2) + f.extra) % (IF f.so = 1 THEN 2*f.G+2 ELSE f.G+2) = 0, "whole-blocks")
    [] r.op = "morris_len" -> Lim(f.traj > 0, "empty") \cup Lim(f.yextra = 0, "whole-trajectories") \cup Lim(f.xextra = f.yextra, "rows-match")
    [] r.op = "dgsm_len" -> Lim(f.blocks > 0, "empty") \cup Lim(f.yextra = 0, "whole-blocks") \cup Lim(f.xextra = f.yextra, "rows-match")
    [] r.op = "ff_len" -> Lim(f.yextra = 0, "design-length")
    [] r.op = "xy_len" -> Lim(f.yextra = 0, "rows-match")
    [] r.op = "option" -> Lim(OptionOK(f.what, f.value), "option")
    [] r.op = "bounds" -> Lim(BoundsOK(f.dist, f.b1, f.b2, f.extra), "bounds")
    [] r.op = "dists" -> Lim(f.dlen = 0, "dists-length") \cup Lim(f.unknown = 0, "dist-name")
    [] r.op = "hdmr" -> Hdmr(f, 2, FALSE) \cup Lim(f.D # 2 \/ f.maxorder <= 2, "order-of-two")
    [] r.op = "enhanced_hdmr" -> Hdmr(f, 1, f.ext = 1)
    [] r.op = "spec" -> Lim(f.names = f.bounds, "names-bounds")

\* inside every limit, yet the least-squares problem may be singular: not judged
Degenerate(r) == r.op \in {"hdmr", "enhanced_hdmr"} /\ r.f.lam = 0 /\ (r.f.m > 2 \/ r.f.maxorder > 2)
\* requests within n edits of r
RECURSIVE Near(_, _)
Step(r) == UNION {{[r EXCEPT !.f[k] = v] : v \in Values(r.op)[k]} : k \in DOMAIN Values(r.op)}
Near(R, n) == IF n = 0 THEN R ELSE Near(UNION {Step(r) : r \in R}, n - 1)
Limits(op) ==
  CASE op = "morris" -> {"levels", "k>=2", "k<N", "k-integer", "k<=10-exhaustive", "groups-length"}
    [] op \in {"sampler_groups", "analysis_groups"} -> {"groups-length"}
    [] op \in {"sampler_seed", "analysis_seed"} -> {"seed"}
    [] op = "conf" -> {"confidence-level"}
    [] op = "fast_sample" -> {"N>4M^2"}
    [] op = "fast_analyze" -> {"N>4M^2", "whole-runs"}
    [] op = "sobol_len" -> {"whole-blocks"}
    [] op = "morris_len" -> {"whole-trajectories", "empty", "rows-match"}
    [] op = "dgsm_len" -> {"whole-blocks", "empty", "rows-match"}
    [] op = "ff_len" -> {"design-length"}
    [] op = "xy_len" -> {"rows-match"}
    [] op = "option" -> {"option"}
    [] op = "bounds" -> {"bounds"}
    [] op = "dists" -> {"dists-length", "dist-name"}
    [] op \in {"hdmr", "enhanced_hdmr"} -> {"maxorder", "m", "K", "maxiter", "R", "alpha", "lambda", "rows", "single-parameter"} \cup (IF op = "hdmr" THEN {"order-of-two"} ELSE {})
    [] op = "spec" -> {"names-bounds"}
=============================================================================
