----------------------------- MODULE Bootstrap ------------------------------
(* Bootstrap of a mean-type statistic: a replicate draws as many whole design *)
(* units as there are, with replacement, and emits the mean of their values;  *)
(* the confidence value is the normal quantile times the sample standard      *)
(* deviation of the emitted means.                                            *)
EXTENDS Rat, FiniteSets
VARIABLES units, drawn, emitted
bvars == <<units, drawn, emitted>>
N == Len(units)
Draw == /\ Len(drawn) < N /\ \E i \in 1..N : drawn' = Append(drawn, units[i]) /\ UNCHANGED <<units, emitted>>
Emit == /\ Len(drawn) = N /\ emitted' = emitted \cup {SumSeq(drawn)} /\ drawn' = <<>> /\ UNCHANGED units
BNext == Draw \/ Emit
(* closed form: every sum a replicate may emit *)
RECURSIVE SumsOf(_, _)
SumsOf(u, k) == IF k = 0 THEN {0} ELSE {s + u[i] : s \in SumsOf(u, k - 1), i \in 1..Len(u)}
=============================================================================
