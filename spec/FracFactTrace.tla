--------------------------- MODULE FracFactTrace ----------------------------
EXTENDS FracFact, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, me, ie) == [ok |-> c = "ok", clause |-> c, at |-> 0, me |-> me, ie |-> ie]
Res(c) ==
  LET K == KOf(c.D) L == c.rows IN
  IF ~Shape(L, K) THEN V("shape", <<>>, <<>>)
  ELSE IF ~TwoLevel(L) THEN V("not-a-bound", <<>>, <<>>)
  ELSE IF ~Balanced(L, K) THEN V("unbalanced", <<>>, <<>>)
  ELSE IF ~Orthogonal(L, K) THEN V("not-orthogonal", <<>>, <<>>)
  ELSE IF ~FoldOver(L, K) THEN V("no-fold-over", <<>>, <<>>)
  ELSE IF c.y = <<>> THEN V("ok", <<>>, <<>>)
  ELSE V("ok", [j \in 1..K |-> ME(L, K, c.y, j)], [i \in 1..K |-> [j \in 1..K |-> IF i < j THEN IE(L, K, c.y, i, j) ELSE <<0, 1>>]])
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
