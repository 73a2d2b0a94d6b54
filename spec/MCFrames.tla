------------------------------ MODULE MCFrames ------------------------------
(* Building the tables of a D-parameter result one row at a time, for every   *)
(* grouping of the parameters.  DESIGN is what the code does; the others are  *)
(* plausible slips that must be refuted.                                      *)
EXTENDS Frames
CONSTANTS D, VARIANT
VARIABLES groups, at, rows
vars == <<groups, at, rows>>
Names == [j \in 1..D |-> <<"n", D + 1 - j>>]                 \* names not in alphabetical order
Gs == {<<>>} \union {[j \in 1..D |-> <<"g", (g[j] * 2) % (D + 1)>>] : g \in Partitions(D)}
L == Labels("sobol", Names, groups)
(* value of a pair: the set of the two entities it is about *)
Val(i, j) == {L[i], L[j]}
Ordered == PairsIdx(Len(L))
LexPairs == LET srt == SelectSeq([k \in 1..((D + 2) * (D + 2)) |-> <<L[1][1], (k - 1) % (D + 2)>>], LAMBDA x : TRUE)
                present == SelectSeq([k \in 1..(D + 2) |-> <<L[1][1], k - 1>>], LAMBDA x : x \in Range(L)) IN present
Init == groups \in Gs /\ at = 1 /\ rows = <<>>
Row(i) ==
  IF VARIANT = "design" THEN [label |-> {L[Ordered[i][1]], L[Ordered[i][2]]}, value |-> Val(Ordered[i][1], Ordered[i][2])]
  ELSE IF VARIANT = "sorted-labels" THEN LET S == LexPairs IN [label |-> {S[Ordered[i][1]], S[Ordered[i][2]]}, value |-> Val(Ordered[i][1], Ordered[i][2])]
  ELSE (* "column-order" *) LET C == PairsCol(Len(L)) IN [label |-> {L[Ordered[i][1]], L[Ordered[i][2]]}, value |-> Val(C[i][1], C[i][2])]
AddRow == /\ at <= Len(Ordered)
          /\ rows' = Append(rows, Row(at)) /\ at' = at + 1 /\ UNCHANGED groups
Next == AddRow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RightValue == \A i \in 1..Len(rows) : rows[i].label = rows[i].value
NoDuplicate == \A i, j \in 1..Len(rows) : i # j => rows[i].label # rows[j].label
Complete == at > Len(Ordered) => {rows[i].label : i \in 1..Len(rows)} = {{a, b} : <<a, b>> \in {p \in Range(L) \X Range(L) : p[1] # p[2]}}
LabelsUnique == Cardinality(Range(L)) = Len(L) /\ Len(L) >= 1
(* the group of every parameter is on the list, in order of first appearance *)
Listed == \A j \in 1..D : LabelOf("sobol", Names, groups, j) \in Range(L)
Finished == <>(at > Len(Ordered))
=============================================================================
