-------------------------------- MODULE Delta --------------------------------
(* Delta analysis: equal-count classes of ranks and the first-order term;     *)
(* stratified ("balanced", "step") resampling plans and the outcome of each   *)
(* stage for one parameter.                                                   *)
(* Data are row types sorted by X: xs[t] (distinct, ascending), ys[t], and a  *)
(* composition c[t] = number of resampled rows of the type.                   *)
EXTENDS Rat, FiniteSets
Total(c) == SumSeq(c)
Below(c, t) == LET f(i) == c[i] IN SumTo(f, t - 1)
(* rows of type t with rank in the class (lo/M, hi/M] of R rows, hi = lo + R  *)
Floor(a, M) == a \div M
InClass(c, t, j, M) ==
  LET R1 == Total(c)
      lo == Floor(j * R1, M)  hi == Floor((j + 1) * R1, M)
      a == Below(c, t)  b == a + c[t]
      l == IF lo > a THEN lo ELSE a  h == IF hi < b THEN hi ELSE b
  IN IF h > l THEN h - l ELSE 0
ClassN(c, j, M) == LET f(t) == InClass(c, t, j, M) IN SumTo(f, Len(c))
ClassS(c, ys, j, M) == LET f(t) == InClass(c, t, j, M) * ys[t] IN SumTo(f, Len(c))
S1(c, ys, M) ==
  LET n == Total(c)
      fs(t) == c[t] * ys[t]  fq(t) == c[t] * ys[t] * ys[t]
      s == SumTo(fs, Len(c))  q == SumTo(fq, Len(c))
      vn == n * q - s * s
      f(j) == LET k == ClassN(c, j - 1, M) e == ClassS(c, ys, j - 1, M) * n - k * s
              IN IF k = 0 THEN <<0, 1>> ELSE RMul(R(e, k * n), R(e, vn))
  IN IF vn = 0 THEN <<0, 1>> ELSE RSumTo(f, M)
RECURSIVE Comps(_, _)
Comps(n, k) == IF k = 1 THEN {<<n>>} ELSE UNION {{<<a>> \o r : r \in Comps(n - a, k - 1)} : a \in 0..n}

(* ---- stratified plans ---------------------------------------------------- *)
MaxI(a, b) == IF a > b THEN a ELSE b
MinClass(N) == MaxI(N \div 200, 10)
(* bin of x among nb equal-width bins of [mn, mx] (first bin closed below)    *)
EqBin(x, mn, mx, nb) == IF x = mn THEN 1 ELSE LET z == nb * (x - mn) w == mx - mn IN (z + w - 1) \div w
(* bin among interior edges (values equal to an edge fall below it)           *)
EdgeBin(x, e) == 1 + Cardinality({i \in 1..Len(e) : e[i] < x})
(* merge under-populated bins with the following ones: sequence of type sets  *)
RECURSIVE Merge(_, _, _, _, _)
Merge(bins, cnt, mc, cur, i) ==      \* bins[i] = set of types, cur = open bin
  LET size(S) == LET f(t) == IF t \in S THEN cnt[t] ELSE 0 IN SumTo(f, Len(cnt))
  IN IF i > Len(bins) THEN <<cur>>
     ELSE IF size(cur) < mc THEN Merge(bins, cnt, mc, cur \cup bins[i], i + 1)
     ELSE <<cur>> \o Merge(bins, cnt, mc, bins[i], i + 1)
Merged(bins, cnt, mc) == Merge(bins, cnt, mc, bins[1], 2)
Quota(R1, nb, i) == (R1 \div nb) + (IF i <= R1 % nb THEN 1 ELSE 0)
Plan(bins, cnt, mc, R1) ==
  LET m == Merged(bins, cnt, mc) IN
  IF Len(m) < 2 THEN [ok |-> FALSE, why |-> "one-bin", bins |-> m]
  ELSE IF (R1 \div Len(m)) < mc THEN [ok |-> FALSE, why |-> "too-small", bins |-> m]
  ELSE [ok |-> TRUE, why |-> "ok", bins |-> m]
(* composition when every bin holds one type, <<>> if it depends on the draw; the last bin may be empty *)
Fixed(p, R1, T) ==
  IF ~p.ok \/ \E i \in 1..Len(p.bins) : Cardinality(p.bins[i]) # 1 THEN <<>>
  ELSE [t \in 1..T |-> LET f(i) == IF t \in p.bins[i] THEN Quota(R1, Len(p.bins), i) ELSE 0 IN SumTo(f, Len(p.bins))]
BinsOf(T, b(_), nb, S) == [i \in 1..nb |-> {t \in S : b(t) = i}]
(* one parameter: spec = <<"eq", nb>> or <<"edges", e...>> *)
Balanced(xs, cnt, spec, R1) ==
  LET T == Len(xs) n == Total(cnt) IN
  IF T = 1 THEN [ok |-> FALSE, why |-> "constant", bins |-> <<>>]
  ELSE IF spec.kind = "eq" THEN
     LET b(t) == EqBin(xs[t], xs[1], xs[T], spec.nb) IN Plan(BinsOf(T, b, spec.nb, 1..T), cnt, MinClass(n), R1)
  ELSE LET b(t) == EdgeBin(xs[t], spec.e) IN Plan(BinsOf(T, b, Len(spec.e) + 1, 1..T), cnt, MinClass(n), R1)
Pos(xs) == {t \in 1..Len(xs) : xs[t] > 0}
CntOf(cnt, S) == LET f(t) == IF t \in S THEN cnt[t] ELSE 0 IN SumTo(f, Len(cnt))
StepPossible(xs, cnt) == LET n == Total(cnt) IN CntOf(cnt, Pos(xs)) >= MinClass(n) /\ CntOf(cnt, (1..Len(xs)) \ Pos(xs)) >= MinClass(n)
Step(xs, cnt, R1) ==
  LET P == Pos(xs) mn == MinOf({xs[t] : t \in P}) mx == MaxOf({xs[t] : t \in P}) n == Total(cnt)
      b(t) == IF mn = mx THEN 1 ELSE EqBin(xs[t], mn, mx, 5)
  IN Plan(BinsOf(Len(xs), b, 5, P), cnt, MinClass(n) \div 2, R1 - R1 \div 2)
StepFixed(xs, cnt, R1) ==
  LET P == Pos(xs) Z == (1..Len(xs)) \ P p == Step(xs, cnt, R1) f == Fixed(p, R1 - R1 \div 2, Len(xs)) IN
  IF f = <<>> \/ Cardinality(Z) # 1 THEN <<>> ELSE [t \in 1..Len(xs) |-> IF t \in Z THEN R1 \div 2 ELSE f[t]]
(* outcome of the stages: which entries are numbers, and whether a note is due *)
Outcome(xs, cnt, spec, R1, method) ==
  LET b == Balanced(xs, cnt, spec, R1) st == StepPossible(xs, cnt) IN
  IF method = "sobol" THEN [bal |-> FALSE, raw |-> FALSE, step |-> FALSE, s1 |-> TRUE, abort |-> FALSE, skip |-> FALSE]
  ELSE IF ~b.ok THEN [bal |-> FALSE, raw |-> FALSE, step |-> FALSE, s1 |-> FALSE, abort |-> TRUE, skip |-> FALSE]
  ELSE IF ~st THEN [bal |-> TRUE, raw |-> TRUE, step |-> FALSE, s1 |-> method = "all", abort |-> FALSE, skip |-> TRUE]
  ELSE LET s == Step(xs, cnt, R1) IN [bal |-> TRUE, raw |-> TRUE, step |-> s.ok, s1 |-> s.ok /\ method = "all", abort |-> ~s.ok, skip |-> FALSE]
=============================================================================
