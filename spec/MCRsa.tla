-------------------------------- MODULE MCRsa -------------------------------
EXTENDS Rsa
CONSTANTS N, BMAX, YMAX
VARIABLES x, y, B, tg, k, row, seen
vars == <<x, y, B, tg, k, row, seen>>
Init == x \in [1..N -> 1..3] /\ y \in [1..N -> 0..YMAX] /\ B \in 1..BMAX /\ tg \in {"X", "Y"} /\ k = 0 /\ row = <<>> /\ seen = {}
t == IF tg = "X" THEN x ELSE y
v == IF tg = "X" THEN y ELSE x
Here == Bin(t, SortAsc(t), k + 1, B)
Skip == k < B /\ Dist(t, v, y, SortAsc(t), k + 1, B) = Undef /\ row' = Append(row, Undef) /\ seen' = seen \cup Here /\ k' = k + 1 /\ UNCHANGED <<x, y, B, tg>>
Compare == k < B /\ Dist(t, v, y, SortAsc(t), k + 1, B) # Undef /\ row' = Append(row, Dist(t, v, y, SortAsc(t), k + 1, B)) /\ seen' = seen \cup Here /\ k' = k + 1 /\ UNCHANGED <<x, y, B, tg>>
Next == Skip \/ Compare
Spec == Init /\ [][Next]_vars
Partition == k = B => seen = 1..N
Disjoint == k < B => Here \cap seen = {}
SameAsColumn == k = B => row = Column(x, y, tg, B)
Symmetric == \A i \in 1..Len(row) : row[i] # Undef => LET I == Bin(t, SortAsc(t), i, B) O == (1..N) \ I IN CvM(Sub(v, O), Sub(v, I)) = row[i]
=============================================================================
