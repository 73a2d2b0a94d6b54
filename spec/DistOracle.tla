----------------------------- MODULE DistOracle -----------------------------
(* kind "marks": legality and landmark table of one distribution              *)
(* kind "column": dense ranks of a column's unit levels and sampled values    *)
(* must agree (strictly monotone transformation) and lie in the support.      *)
EXTENDS Dist, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
Lvl(u) == [k |-> u.k, p |-> CASE u.k = "rat" -> <<u.v>> [] u.k = "phi" -> <<u.z>> [] u.k = "weib" -> <<u.t>> [] OTHER -> <<u.z, u.a, u.b>>]
Out(m) == [u |-> Lvl(m.u), x |-> m.x, ln |-> m.ln]
Res(c) ==
  IF c.kind = "marks" THEN
    LET v == Valid(c.d, c.b) IN
    [valid |-> v, marks |-> IF ~v THEN <<>>
       ELSE IF c.d = "logunif" THEN LET ms == LogMarks(c.b[1], c.r, c.m) IN [i \in 1..Len(ms) |-> Out(ms[i])]
       ELSE [i \in 1..5 |-> Out(Mark(c.d, c.b, i - 1))]]
  ELSE LET n == Len(c.ru)
           bad == {i \in 1..n : c.ru[i] # c.rx[i]}
           out == {i \in 1..n : c.sup[i] # 1}
       IN IF bad # {} THEN [ok |-> FALSE, clause |-> "not-monotone", at |-> MinOf(bad)]
          ELSE IF out # {} THEN [ok |-> FALSE, clause |-> "outside-support", at |-> MinOf(out)]
          ELSE [ok |-> TRUE, clause |-> "ok", at |-> 0]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
