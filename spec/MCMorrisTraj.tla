---------------------------- MODULE MCMorrisTraj ----------------------------
EXTENDS MorrisTraj
CONSTANTS MaxD, Levels
Abs1(x) == IF x < 0 THEN -x ELSE x
MCInit == /\ p \in Levels /\ grp \in UNION {Partitions(d) : d \in 1..MaxD}
          /\ pt \in [1..Len(grp) -> 0..(p - 1)] /\ moved = {} /\ traj = <<pt>>
DoMove == \E k \in 1..G : Move(k)
MCSpec == MCInit /\ [][DoMove]_mtvars /\ WF_mtvars(DoMove)
OnGrid == \A i \in 1..Len(traj) : \A j \in 1..D : traj[i][j] \in 0..(p - 1)
OneGroupPerStep == \A i \in 1..(Len(traj) - 1) : \E k \in 1..G : \A j \in 1..D :
                      IF grp[j] = k THEN Abs1(traj[i + 1][j] - traj[i][j]) = p \div 2 ELSE traj[i + 1][j] = traj[i][j]
EachOnce == \A k \in moved : \A j \in 1..D : grp[j] = k => Abs1(pt[j] - traj[1][j]) = p \div 2
Length == Len(traj) = Cardinality(moved) + 1
Terminates == <>Complete

=============================================================================
