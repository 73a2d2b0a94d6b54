------------------------------- MODULE Latin --------------------------------
(* Latin hypercube design of n rows over groups 1..g: one stratum order per   *)
(* group, all orders possible and chosen independently; every parameter       *)
(* follows the order (and the very draws) of its group.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Perms(n) == {f \in [1..n -> 0..(n-1)] : \A i, j \in 1..n : i # j => f[i] # f[j]}
IsPerm(s) == \A v \in 0..(Len(s)-1) : \E i \in 1..Len(s) : s[i] = v
(* legal column set for group assignment `grp` (parameter -> group number) *)
LegalColumns(grp, n, cols) ==
  /\ \A j \in 1..Len(grp) : cols[j] \in Perms(n)
  /\ \A i, j \in 1..Len(grp) : grp[i] = grp[j] => cols[i] = cols[j]
=============================================================================
