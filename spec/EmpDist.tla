------------------------------ MODULE EmpDist -------------------------------
(* Empirical distributions of integer data: linear-interpolation quantiles,   *)
(* two-sample Kolmogorov-Smirnov and Cramer-von Mises statistics, exactly.    *)
EXTENDS Rat, FiniteSets
RECURSIVE SortAsc(_)
SortAsc(s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET p == s[1]
           lt(x) == x < p  eq(x) == x = p  gt(x) == x > p
       IN SortAsc(SelectSeq(s, lt)) \o SelectSeq(s, eq) \o SortAsc(SelectSeq(s, gt))
(* quantile at level k/S of sorted data, times S                              *)
QTimes(srt, k, S) ==
  LET h == (Len(srt) - 1) * k  i == h \div S  f == h % S IN
  IF f = 0 THEN S * srt[i + 1] ELSE S * srt[i + 1] + f * (srt[i + 2] - srt[i + 1])
Cnt(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
(* integer-scaled ECDF distance at v: |n2 #(a<=v) - n1 #(b<=v)| / (n1 n2)     *)
KS(a, b) ==
  LET d(v) == LET le(x) == x <= v IN Abs(Len(b) * Cnt(a, le) - Len(a) * Cnt(b, le))
  IN R(MaxOf({d(b[i]) : i \in 1..Len(b)} \cup {d(a[i]) : i \in 1..Len(a)}), Len(a) * Len(b))
(* Cramer-von Mises with mid-ranks: doubled ranks of the i-th smallest of a in the pool *)
Rank2(v, a, b) == LET lt(x) == x < v le(x) == x <= v IN Cnt(a, lt) + Cnt(b, lt) + Cnt(a, le) + Cnt(b, le) + 1
RankSum(a, b) == LET s == SortAsc(a) f(i) == LET e == Rank2(s[i], a, b) - 2 * i IN e * e IN SumTo(f, Len(a))
CvM(a, b) ==
  LET n == Len(a) m == Len(b)
      u == R(n * RankSum(a, b) + m * RankSum(b, a), 4)
  IN RSub(RDiv(u, <<n * m * (n + m), 1>>), R(4 * n * m - 1, 6 * (n + m)))
RECURSIVE Pick(_, _, _)
Pick(y, I, i) == IF i > Len(y) THEN <<>> ELSE (IF i \in I THEN <<y[i]>> ELSE <<>>) \o Pick(y, I, i + 1)
Sub(y, I) == Pick(y, I, 1)
=============================================================================
