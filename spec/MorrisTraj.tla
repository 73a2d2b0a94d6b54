----------------------------- MODULE MorrisTraj -----------------------------
(* Morris trajectories on the p-level grid (levels 0..p-1 stand for the       *)
(* points level/(p-1) of the unit cube).  One action moves all parameters of  *)
(* one not yet moved group by p/2 levels, each in the direction that stays on *)
(* the grid.                                                                  *)
EXTENDS Groups, Integers
VARIABLES grp,    \* canonical group of each parameter
          p,      \* number of levels (even)
          pt,     \* current point
          moved,  \* groups already moved in this trajectory
          traj    \* rows emitted in this trajectory
mtvars == <<grp, p, pt, moved, traj>>
G == NumGroups(grp)
D == Len(grp)
Shift(c) == IF c < p \div 2 THEN c + p \div 2 ELSE c - p \div 2
After(q, k) == [j \in 1..D |-> IF grp[j] = k THEN Shift(q[j]) ELSE q[j]]
Begin(q) == /\ pt' = q /\ moved' = {} /\ traj' = <<q>> /\ UNCHANGED <<grp, p>>
Move(k) == /\ k \in 1..G \ moved
           /\ pt' = After(pt, k) /\ moved' = moved \cup {k} /\ traj' = Append(traj, pt')
           /\ UNCHANGED <<grp, p>>
Complete == moved = 1..G
=============================================================================
