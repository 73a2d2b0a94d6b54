----------------------------- MODULE BootOracle -----------------------------
EXTENDS Bootstrap, TLC, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
Res(c) == [sums |-> SetToSeq(SumsOf(c.units, Len(c.units))), varnum |-> VarNum(c.units), n |-> Len(c.units)]
OInit == ci = 1 /\ results = <<>> /\ units = <<>> /\ drawn = <<>> /\ emitted = {}
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1 /\ UNCHANGED bvars
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED <<bvars, results>>
OSpec == OInit /\ [][Eval \/ Write]_<<bvars, ci, results>>
=============================================================================
