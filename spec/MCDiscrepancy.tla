---------------------------- MODULE MCDiscrepancy ----------------------------
(* Points are added one by one; the value is a non-negative function of the   *)
(* set of points, symmetric in the axes, and (except L2-star) of reflections. *)
EXTENDS Discrepancy
CONSTANTS Q, NMAX
VARIABLES m, xs, ys
vars == <<m, xs, ys>>
Init == m \in Methods /\ xs = <<>> /\ ys = <<>>
Add == Len(xs) < NMAX /\ \E a, b \in 0..Q : xs' = Append(xs, a) /\ ys' = Append(ys, b) /\ UNCHANGED m
Next == Add
Spec == Init /\ [][Next]_vars
v == Disc(m, xs, ys, Q, Q)
NonNegative == xs # <<>> => v[1] >= 0
AxesSymmetric == xs # <<>> => Disc(m, ys, xs, Q, Q) = v
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == xs # <<>> => Disc(m, Rev(xs), Rev(ys), Q, Q) = v
Reflect == xs # <<>> /\ m # "L2-star" => Disc(m, [i \in 1..Len(xs) |-> Q - xs[i]], ys, Q, Q) = v
ScaleFree == xs # <<>> /\ Len(xs) <= 2 => Disc(m, [i \in 1..Len(xs) |-> 2 * xs[i]], ys, 2 * Q, Q) = v
=============================================================================
