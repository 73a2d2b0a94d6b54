--------------------------- MODULE DigitalOracle ----------------------------
(* kind "points": the count points from point `start` on, in every dimension of *)
(* the case's table.  kind "rule": default skip and warning rule.               *)
EXTENDS DigitalSeq, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
RECURSIVE Walk(_,_,_,_)
Walk(V, X, n, k) == IF k = 0 THEN <<>> ELSE <<X>> \o (IF k = 1 THEN <<>> ELSE Walk(V, Step(V, X, n), n+1, k-1))
Eval1(c) ==
  IF c.kind = "points" THEN
    [pts |-> [i \in 1..Len(c.table) |->
        LET V == Dirs(c.table[i], c.bits) IN Walk(V, Point(V, c.start), c.start, c.count)]]
  ELSE [default |-> DefaultSkip(c.n),
        warns |-> Warns(c.sampler, c.n, IF c.given THEN c.skip ELSE IF c.sampler = "saltelli" THEN DefaultSkip(c.n) ELSE 0, c.given)]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Eval1(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
