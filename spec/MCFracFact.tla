---------------------------- MODULE MCFracFact ------------------------------
(* The construction row by row for every D, and on every completed design the *)
(* effects of a multilinear model are its coefficients (aliasing aside).      *)
EXTENDS FracFact
CONSTANTS DMAX
VARIABLES D, rows, act
vars == <<D, rows, act>>
K == KOf(D)
Init == D \in 1..DMAX /\ rows = <<>> /\ act = <<>>
Base == Len(rows) < K /\ rows' = Append(rows, [j \in 1..K |-> Syl(Len(rows) + 1, j)]) /\ UNCHANGED <<D, act>>
Fold == Len(rows) \in K..(2*K-1) /\ rows' = Append(rows, [j \in 1..K |-> 1 - rows[Len(rows) + 1 - K][j]]) /\ UNCHANGED <<D, act>>
Effect == Len(rows) = 2 * K /\ act = <<>> /\ \E j \in 1..D : act' = <<j>> /\ UNCHANGED <<D, rows>>
Next == Base \/ Fold \/ Effect
Spec == Init /\ [][Next]_vars
Done == Len(rows) = 2 * K
Smallest == K >= D /\ (K > 1 => K \div 2 < D)
Legal == Done => Shape(rows, K) /\ TwoLevel(rows) /\ Balanced(rows, K) /\ Orthogonal(rows, K) /\ FoldOver(rows, K) /\ rows = Design(K)
(* y = 3 x_j - 2 x_1 + 5: main effects are exactly the coefficients           *)
Exact == act # <<>> => LET y == [r \in 1..(2*K) |-> 3 * Sgn(rows[r][act[1]]) - 2 * Sgn(rows[r][1]) + 5] IN
   \A j \in 1..K : ME(rows, K, y, j) = <<(IF j = act[1] THEN 3 ELSE 0) - (IF j = 1 THEN 2 ELSE 0), 1>>
=============================================================================
