------------------------------ MODULE CliOracle -----------------------------
EXTENDS Cli, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
Load(i) == Begin(Cases[i].action, Cases[i].method, Cases[i].tokens)
OInit == /\ ci = 1 /\ results = <<>> /\ action = Cases[1].action /\ method = Cases[1].method /\ rest = Cases[1].tokens /\ got = [x \in {} |-> ""]
Live == ci <= Len(Cases)
Go == Live /\ rest # <<>> /\ ~Bad(rest[1]) /\ TakeOption /\ UNCHANGED <<ci, results>>
Fin(r) == results' = Append(results, r) /\ ci' = ci + 1 /\ IF ci < Len(Cases) THEN Load(ci + 1) ELSE UNCHANGED cvars
Reject == Live /\ rest # <<>> /\ Bad(rest[1]) /\ Fin([status |-> "rejected"])
Lacks == Live /\ rest = <<>> /\ Missing /\ Fin([status |-> "rejected"])
Ok == Live /\ rest = <<>> /\ ~Missing /\ Fin([status |-> "ok", call |-> Call])
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED <<cvars, results>>
OSpec == OInit /\ [][Go \/ Reject \/ Lacks \/ Ok \/ Write]_<<cvars, ci, results>>
=============================================================================
