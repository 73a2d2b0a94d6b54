------------------------------- MODULE MCDelta -------------------------------
(* Resampling one row at a time, then classing: the first-order term lies in  *)
(* [0, 1]; the stages of one parameter run in order and abort together.       *)
EXTENDS Delta
CONSTANTS RMAX, TYPES, MMAX, YMAX
VARIABLES ys, c, M, phase
vars == <<ys, c, M, phase>>
Init == ys \in [1..TYPES -> 0..YMAX] /\ c = [t \in 1..TYPES |-> 0] /\ M \in 1..MMAX /\ phase = "draw"
Draw == phase = "draw" /\ Total(c) < RMAX /\ \E t \in 1..TYPES : c' = [c EXCEPT ![t] = @ + 1] /\ UNCHANGED <<ys, M, phase>>
Stop == phase = "draw" /\ Total(c) >= M /\ phase' = "classed" /\ UNCHANGED <<ys, c, M>>
Next == Draw \/ Stop
Spec == Init /\ [][Next]_vars
Unit == phase = "classed" => LET s == S1(c, ys, M) IN RLe(<<0, 1>>, s) /\ RLe(s, <<1, 1>>)
EqualCount == phase = "classed" => /\ \A i, j \in 0..(M-1) : Abs(ClassN(c, i, M) - ClassN(c, j, M)) <= 1
   /\ LET f(j) == ClassN(c, j - 1, M) IN SumTo(f, M) = Total(c)
Affine == phase = "classed" => S1(c, [t \in 1..TYPES |-> 3 - 2 * ys[t]], M) = S1(c, ys, M)
AllCompositions == phase = "classed" => c \in Comps(Total(c), TYPES)
Spc == {[kind |-> "eq", nb |-> n, e |-> <<>>] : n \in 1..3}
Plans == phase = "classed" => \A s \in Spc :
   LET xs == [t \in 1..TYPES |-> 3 * t - 4] cnt == [t \in 1..TYPES |-> 7 * c[t] + 1] b == Balanced(xs, cnt, s, Total(cnt)) IN
   /\ (b.bins # <<>> => UNION {b.bins[i] : i \in 1..Len(b.bins)} = 1..TYPES)
   /\ \A i \in 1..Len(b.bins) : i < Len(b.bins) => CntOf(cnt, b.bins[i]) >= MinClass(Total(cnt))
   /\ LET f == Fixed(b, Total(cnt), TYPES) IN f # <<>> => Total(f) = Total(cnt)
   /\ LET o == Outcome(xs, cnt, s, Total(cnt), "all") IN (o.raw => o.bal) /\ (o.s1 => o.raw) /\ (o.abort => ~o.s1) /\ (o.step => o.bal)
=============================================================================
