------------------------------ MODULE MCLatin -------------------------------
(* The construction: draw one value in each stratum for every group, shuffle  *)
(* each group's column by successive swaps, hand the column to its members.   *)
EXTENDS Latin
CONSTANTS N
GRPS == {<<1,2>>, <<1,1>>, <<1,2,1>>, <<1,1,2>>, <<1,2,2>>}
VARIABLES grp, temp, g, pos, cols
vars == <<grp, temp, g, pos, cols>>
NG == Cardinality({grp[j] : j \in 1..Len(grp)})
Init == /\ grp \in GRPS /\ temp = [k \in 1..3 |-> [i \in 1..N |-> i - 1]] /\ g = 1 /\ pos = N
        /\ cols = [j \in 1..Len(grp) |-> <<>>]
Swap == /\ g <= NG /\ pos > 1
        /\ \E k \in 1..pos : temp' = [temp EXCEPT ![g] = [@ EXCEPT ![pos] = temp[g][k], ![k] = temp[g][pos]]]
        /\ pos' = pos - 1 /\ UNCHANGED <<grp, g, cols>>
Hand == /\ g <= NG /\ pos = 1
        /\ cols' = [j \in 1..Len(grp) |-> IF grp[j] = g THEN temp[g] ELSE cols[j]]
        /\ g' = g + 1 /\ pos' = N /\ UNCHANGED <<grp, temp>>
Next == Swap \/ Hand
Spec == Init /\ [][Next]_vars
Done == g = NG + 1
Stratified == Done => LegalColumns(grp, N, cols)
Mid == \A k \in 1..3 : IsPerm(temp[k])
=============================================================================
