----------------------------- MODULE DiscOracle ------------------------------
EXTENDS Discrepancy, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
Res(c) == [vals |-> [j \in 1..Len(c.x) |-> Disc(c.m, c.x[j], c.y, c.q[j], c.r)]]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
