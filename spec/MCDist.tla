------------------------------- MODULE MCDist -------------------------------
(* Every legal small specification: landmarks rise with the level and stay in *)
(* the support; every illegal one is never scaled.                            *)
EXTENDS Dist, TLC
V == {<<-1, 1>>, <<0, 1>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<2, 1>>}
CONSTANTS Four
VARIABLES d, b, t, m, st
vars == <<d, b, t, m, st>>
Specs == UNION {[1..k -> V] : k \in (IF Four THEN {1, 2, 3, 4} ELSE {1, 2, 3})}
Init == d \in (Kinds \cup {"beta"}) /\ b \in Specs /\ (~Four \/ d = "truncnorm") /\ t = -1 /\ m = <<>> /\ st = "new"
Reject == st = "new" /\ ~Valid(d, b) /\ st' = "error" /\ UNCHANGED <<d, b, t, m>>
Accept == st = "new" /\ Valid(d, b) /\ d # "logunif" /\ st' = "ok" /\ UNCHANGED <<d, b, t, m>>
AcceptLog == st = "new" /\ Valid(d, b) /\ d = "logunif" /\ st' = "log" /\ UNCHANGED <<d, b, t, m>>
Scale == st = "ok" /\ t < 4 /\ t' = t + 1 /\ m' = Append(m, Mark(d, b, t + 1)) /\ UNCHANGED <<d, b, st>>
ScaleLog == st = "log" /\ t = -1 /\ t' = 4 /\ m' = LogMarks(b[1], RDiv(b[2], b[1]), 1) /\ UNCHANGED <<d, b, st>>
Next == Reject \/ Accept \/ AcceptLog \/ Scale \/ ScaleLog
Spec == Init /\ [][Next]_vars
Monotone == \A i, j \in 1..Len(m) : i < j => RLe(m[i].x, m[j].x)
   /\ (m[i].u.k = "rat" => (RLe(m[i].u.v, m[j].u.v) /\ (m[i].u.v = m[j].u.v <=> m[i].x = m[j].x)))
Support == \A i \in 1..Len(m) : InSupport(d, b, m[i])
Levels == \A i \in 1..Len(m) : m[i].u.k = "rat" => RLe(Zero, m[i].u.v) /\ RLe(m[i].u.v, One)
NoNumbers == st = "error" => m = <<>>
=============================================================================
