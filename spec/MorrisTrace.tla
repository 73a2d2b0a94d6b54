----------------------------- MODULE MorrisTrace ----------------------------
(* Recorded Morris designs (rows of grid levels, -1 = off the grid) checked   *)
(* against MorrisTraj: n consecutive trajectories of G+1 rows.                *)
EXTENDS MorrisTraj, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, verdicts
tvars == <<mtvars, ci, l, verdicts>>
Cur == Cases[ci]
Row(i) == Cur.rows[i]
InGrid(r) == Len(r) = D /\ \A j \in 1..D : r[j] \in 0..(p - 1)
Load(c) == grp' = Canon(c.groups) /\ p' = c.p /\ pt' = <<>> /\ moved' = {} /\ traj' = <<>> /\ l' = 1
Next_(ok, clause) == /\ verdicts' = Append(verdicts, [ok |-> ok, clause |-> clause, at |-> l])
                     /\ ci' = ci + 1
                     /\ IF ci + 1 <= Len(Cases) THEN Load(Cases[ci + 1]) ELSE UNCHANGED <<mtvars, l>>
TInit == /\ ci = 1 /\ l = 1 /\ verdicts = <<>> /\ grp = Canon(Cases[1].groups) /\ p = Cases[1].p
         /\ pt = <<>> /\ moved = {} /\ traj = <<>>
Live == ci <= Len(Cases)
Check == Live /\ l <= Len(Cur.rows) /\ Len(Cur.rows) = Cur.n * (G + 1)
BadCount == Live /\ Len(Cur.rows) # Cur.n * (G + 1) /\ Next_(FALSE, "row-count")
BadGrid == Check /\ ~InGrid(Row(l)) /\ Next_(FALSE, "off-grid")
StartTraj == Check /\ InGrid(Row(l)) /\ (traj = <<>> \/ Complete) /\ Begin(Row(l)) /\ l' = l + 1 /\ UNCHANGED <<ci, verdicts>>
StepTraj == /\ Check /\ InGrid(Row(l)) /\ traj # <<>> /\ ~Complete
            /\ \E k \in 1..G : Move(k) /\ pt' = Row(l)
            /\ l' = l + 1 /\ UNCHANGED <<ci, verdicts>>
BadStep == /\ Check /\ InGrid(Row(l)) /\ traj # <<>> /\ ~Complete
           /\ ~\E k \in 1..G \ moved : After(pt, k) = Row(l)
           /\ Next_(FALSE, "step")
Good == Live /\ Len(Cur.rows) = Cur.n * (G + 1) /\ l > Len(Cur.rows) /\ Next_(TRUE, "ok")
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, verdicts) /\ ci' = ci + 1 /\ UNCHANGED <<mtvars, l, verdicts>>
OSpec == TInit /\ [][BadCount \/ BadGrid \/ StartTraj \/ StepTraj \/ BadStep \/ Good \/ Write]_tvars
=============================================================================
