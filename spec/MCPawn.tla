------------------------------- MODULE MCPawn -------------------------------
(* All small samples: slices processed one by one.                            *)
EXTENDS Pawn
CONSTANTS N, SMAX, YMAX
VARIABLES x, y, S, k, ks, seen
vars == <<x, y, S, k, ks, seen>>
Init == x \in [1..N -> 1..3] /\ y \in [1..N -> 0..YMAX] /\ S \in 1..SMAX /\ k = 0 /\ ks = <<>> /\ seen = {}
Slc == Slice(x, SortAsc(x), k + 1, S)
Empty == k < S /\ Slc = {} /\ k' = k + 1 /\ ks' = Append(ks, Undef) /\ UNCHANGED <<x, y, S, seen>>
Compare == k < S /\ Slc # {} /\ k' = k + 1 /\ ks' = Append(ks, KS(Sub(y, Slc), y)) /\ seen' = seen \cup Slc /\ UNCHANGED <<x, y, S>>
Next == Empty \/ Compare
Spec == Init /\ [][Next]_vars
Unit == \A i \in 1..Len(ks) : ks[i][2] # 0 => RLe(<<0, 1>>, ks[i]) /\ RLe(ks[i], <<1, 1>>)
Disjoint == k < S => Slc \cap seen = {}
AllButTop == k = S => seen = {i \in 1..N : \E j \in 1..N : x[j] > x[i]}
Ordered == k = S => LET s == Stats(x, y, S) IN s.ks = Def(ks) /\ (s.ks # <<>> =>
   RLe(s.min, s.med) /\ RLe(s.med, s.max) /\ RLe(s.min, s.mean) /\ RLe(s.mean, s.max) /\ RLe(<<0, 1>>, s.var))
Indifferent == (\A i, j \in 1..N : y[i] = y[j]) => \A i \in 1..Len(ks) : ks[i] \in {Undef, <<0, 1>>}
=============================================================================
