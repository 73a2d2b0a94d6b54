---------------------------- MODULE MCMorrisOpt -----------------------------
(* One-parameter pools on the 4-level grid: selection as a process that adds  *)
(* one trajectory at a time in any order; completed selections are exactly    *)
(* the k-subsets, and embedding them in pool order succeeds and is faithful.  *)
EXTENDS MorrisOpt
CONSTANTS NPool, K
VARIABLES pool, sel
vars == <<pool, sel>>
T == {<<<<a>>, <<b>>>> : a \in 0..3, b \in 0..3}
Traj == {t \in T : t[1][1] - t[2][1] \in {2, -2}}
Init == pool \in [1..NPool -> Traj] /\ sel = {}
Pick == \E i \in 1..NPool \ sel : Cardinality(sel) < K /\ sel' = sel \cup {i} /\ UNCHANGED pool
Spec == Init /\ [][Pick]_vars
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Chosen == LET o == Sorted(sel) IN [i \in 1..Len(o) |-> pool[o[i]]]
Faithful == LET e == Embed(pool, Chosen, 1, 1) IN
   /\ Len(e) = Cardinality(sel) /\ \A i \in 1..Len(e) : e[i] > 0 /\ pool[e[i]] = Chosen[i]
   /\ \A i \in 1..(Len(e) - 1) : e[i] < e[i + 1]
DM == [i \in 1..NPool |-> [h \in 1..NPool |-> TDist(pool[i], pool[h])]]
Symmetric == \A i, h \in 1..NPool : DM[i][h] = DM[h][i] /\ (DM[i][h] = 0) = (pool[i] = pool[h])
(* adding a trajectory never shrinks the spread *)
Monotone == \A i \in 1..NPool : BLe(BigSum(DM, Pairs(sel), 0), BigSum(DM, Pairs(sel \cup {i}), 0))
(* what the local search promises is never more than the optimum delivers, and a completed search of it exists *)
SL == Slack(pool[1])
LocalSound == Cardinality(sel) = K =>
   LET best == \A S \in KSub(1..NPool, K) : BLe(Lo(DM, S), Lo(DM, sel)) IN
   /\ best => LocalOk(DM, sel, K, SL)
   /\ LocalOk(DM, sel, K, SL) => \A pr \in Pairs(1..NPool) : BLe(Lo(DM, {pr[1], pr[2]}), Hi(DM, sel, SL))
=============================================================================
