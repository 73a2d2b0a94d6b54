---------------------------- MODULE DomainOracle ----------------------------
(* each case [op, edits] is answered with every request within that many edits, *)
(* and the limits each one breaks                                               *)
EXTENDS Domain, Json, IOUtils, SequencesExt
VARIABLES done
cases == JsonDeserialize(IOEnv.CASES)
Gen(c) == LET R == TLCEval(Near({[op |-> c.op, f |-> Start(c.op)]}, c.edits)) IN [reqs |-> SetToSeq({[op |-> q.op, f |-> q.f, bad |-> SetToSeq(Violated(q)), deg |-> Degenerate(q)] : q \in R})]
OInit == done = FALSE
ONext == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, [i \in 1..Len(cases) |-> Gen(cases[i])])
OSpec == OInit /\ [][ONext]_done
=============================================================================
