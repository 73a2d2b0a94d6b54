-------------------------------- MODULE Pawn --------------------------------
(* PAWN: slices of an input between its equal-probability quantiles (closed   *)
(* below, open above), KS distance of the outputs in each slice to all.       *)
EXTENDS EmpDist
Undef == <<0, 0>>
Slice(x, srt, k, S) == {i \in 1..Len(x) : QTimes(srt, k - 1, S) <= S * x[i] /\ S * x[i] < QTimes(srt, k, S)}
SliceKS(x, srt, y, k, S) == LET I == Slice(x, srt, k, S) IN IF I = {} THEN Undef ELSE KS(Sub(y, I), y)
AllKS(x, y, S) == LET srt == SortAsc(x) IN [k \in 1..S |-> SliceKS(x, srt, y, k, S)]
RECURSIVE Insert(_, _)
Insert(q, s) == IF s = <<>> THEN <<q>> ELSE IF RLe(q, s[1]) THEN <<q>> \o s ELSE <<s[1]>> \o Insert(q, Tail(s))
RECURSIVE RSort(_)
RSort(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), RSort(Tail(s)))
Def(ks) == LET d(q) == q[2] # 0 IN SelectSeq(ks, d)
Median(s) == LET t == RSort(s) n == Len(t) IN IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE RMul(<<1, 2>>, RAdd(t[n \div 2], t[n \div 2 + 1]))
RMean(s) == RDiv(RSumSeq(s), <<Len(s), 1>>)
PVar(s) == LET m == RMean(s) IN RMean([i \in 1..Len(s) |-> LET e == RSub(s[i], m) IN RMul(e, e)])
Stats(x, y, S) ==
  LET d == Def(AllKS(x, y, S)) IN
  IF d = <<>> THEN [min |-> Undef, mean |-> Undef, med |-> Undef, max |-> Undef, var |-> Undef, ks |-> <<>>]
  ELSE LET t == RSort(d) IN [min |-> t[1], mean |-> RMean(d), med |-> Median(d), max |-> t[Len(t)], var |-> PVar(d), ks |-> d]
=============================================================================
