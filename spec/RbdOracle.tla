----------------------------- MODULE RbdOracle ------------------------------
EXTENDS RbdFast, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
(* rks[j] = rank vector of parameter j; sp = spectrum along parameter `by`    *)
Res(c) == [order |-> Order(c.rk), s1 |-> S1(c.sp, c.n, c.M), lam |-> R(2 * c.M, c.n)]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
