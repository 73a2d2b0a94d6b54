---------------------------- MODULE MCFiniteDiff -----------------------------
EXTENDS FiniteDiff, FiniteSets
V == {<<-2, 1>>, <<-1, 2>>, <<0, 1>>, <<3, 4>>, <<1, 1>>}
Dl == {<<1, 100>>, <<1, 2>>, <<2, 1>>}
CONSTANTS NB
VARIABLES x, d, rows
vars == <<x, d, rows>>
Lim == <<<<<<-2, 1>>, <<1, 1>>>>, <<<<-2, 1>>, <<1, 1>>>>>>
Init == x \in [1..2 -> V] /\ d \in Dl /\ rows = <<>>
BaseRow == Len(rows) % 3 = 0 /\ Len(rows) < 3 * NB /\ (IF rows = <<>> THEN x' = x ELSE x' \in [1..2 -> V]) /\ rows' = Append(rows, Row(x', 0, d, Lim)) /\ UNCHANGED d
Perturb == Len(rows) % 3 # 0 /\ rows' = Append(rows, Row(x, Len(rows) % 3, d, Lim)) /\ UNCHANGED <<x, d>>
Next == BaseRow \/ Perturb
Spec == Init /\ [][Next]_vars
InBounds == \A r \in 1..Len(rows) : \A j \in 1..2 : RLe(Lim[j][1], rows[r][j]) /\ RLe(rows[r][j], Lim[j][2])
OneAtATime == \A r \in 1..Len(rows) : LET k == (r - 1) % 3 IN k # 0 => \A j \in 1..2 : j # k => rows[r][j] = rows[r - k][j]
StepBound == \A r \in 1..Len(rows) : LET k == (r - 1) % 3 IN k # 0 =>
   RLe(RAbs(RSub(rows[r][k], rows[r-k][k])), RAbs(RMul(rows[r-k][k], d)))
=============================================================================
