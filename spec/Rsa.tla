--------------------------------- MODULE Rsa --------------------------------
(* Regional sensitivity analysis: bins of the conditioning axis between its   *)
(* equal-probability quantiles (open below except the first, closed above),   *)
(* Cramer-von Mises distance between values inside and outside the bin.       *)
EXTENDS EmpDist
Undef == <<0, 0>>
Bin(t, srt, k, B) == {i \in 1..Len(t) : (IF k = 1 THEN QTimes(srt, 0, B) <= B * t[i] ELSE QTimes(srt, k - 1, B) < B * t[i]) /\ B * t[i] <= QTimes(srt, k, B)}
(* t = conditioning values, v = compared values, y = model outputs            *)
Dist(t, v, y, srt, k, B) ==
  LET I == Bin(t, srt, k, B) O == (1..Len(t)) \ I IN
  IF Cardinality(I) < 2 \/ Cardinality(O) < 2 \/ Cardinality({y[i] : i \in I}) < 2 THEN Undef
  ELSE CvM(Sub(v, I), Sub(v, O))
Column(x, y, target, B) ==
  LET t == IF target = "X" THEN x ELSE y  v == IF target = "X" THEN y ELSE x  srt == SortAsc(t)
  IN [k \in 1..B |-> Dist(t, v, y, srt, k, B)]
=============================================================================
