------------------------------ MODULE Saltelli ------------------------------
(* Saltelli's cross-sampled design as a state machine emitting one design row *)
(* per step.  A row is abstracted to the source ("A" or "B") of each of its   *)
(* cells; blk is the index of the base point it is built from.                *)
EXTENDS Groups, Integers

VARIABLES grp,   \* effective group number of each parameter (1..G)
          so,    \* second order requested
          n,     \* number of base points
          blk,   \* current block (1..n)
          pos,   \* rows already emitted in the current block
          last   \* last emitted row: [blk, kind, cells]
svars == <<grp, so, n, blk, pos, last>>

G == NumGroups(grp)
D == Len(grp)
BlockLen == IF so THEN 2*G + 2 ELSE G + 2
NoRow == [blk |-> 0, kind |-> "none", g |-> 0, cells |-> <<>>]

(* the row kinds of a block, in order *)
CellsA     == [j \in 1..D |-> "A"]
CellsB     == [j \in 1..D |-> "B"]
CellsAB(k) == [j \in 1..D |-> IF grp[j] = k THEN "B" ELSE "A"]
CellsBA(k) == [j \in 1..D |-> IF grp[j] = k THEN "A" ELSE "B"]

Emit(kind, k, cells) ==
  /\ last' = [blk |-> blk, kind |-> kind, g |-> k, cells |-> cells]
  /\ UNCHANGED <<grp, so, n>>

EmitA    == /\ blk <= n /\ pos = 0
            /\ Emit("A", 0, CellsA) /\ pos' = 1 /\ blk' = blk
EmitAB   == /\ blk <= n /\ pos \in 1..G
            /\ Emit("AB", pos, CellsAB(pos)) /\ pos' = pos + 1 /\ blk' = blk
EmitBA   == /\ blk <= n /\ so /\ pos \in (G+1)..(2*G)
            /\ Emit("BA", pos - G, CellsBA(pos - G)) /\ pos' = pos + 1 /\ blk' = blk
EmitB    == /\ blk <= n /\ pos = BlockLen - 1
            /\ Emit("B", 0, CellsB) /\ pos' = 0 /\ blk' = blk + 1
SNext == EmitA \/ EmitAB \/ EmitBA \/ EmitB

(* ------------------------- design properties ------------------------------ *)
Exchanged(cells, x) == {j \in 1..D : cells[j] = x}
TypeOK == /\ grp \in [1..D -> 1..D] /\ so \in BOOLEAN /\ blk \in 1..(n+1)
          /\ pos \in 0..(BlockLen-1)
(* rows of kind AB_k / BA_k exchange exactly the members of one whole group *)
ExchangeWholeGroup ==
  /\ (last.kind = "AB" => Exchanged(last.cells, "B") = Members(grp, last.g))
  /\ (last.kind = "BA" => Exchanged(last.cells, "A") = Members(grp, last.g))
  /\ (last.kind \in {"AB","BA"} => Members(grp, last.g) # {})
(* the k-th AB row exchanges the group whose first member appears k-th *)
FirstAppearanceOrder ==
  last.kind = "AB" =>
    Cardinality({h \in 1..D : FirstOf(grp, h) = h
                 /\ h < (CHOOSE m \in Members(grp, last.g) : \A x \in Members(grp, last.g) : m <= x)})
      = last.g - 1
(* rows emitted so far: determines the total when blk = n+1 *)
Emitted == (blk - 1) * BlockLen + pos
TotalRows == n * BlockLen
CountOK == Emitted <= TotalRows
BlockShape ==
  /\ (last.kind = "A" => pos = 1)
  /\ (last.kind = "B" => pos = 0)
  /\ (~so => last.kind # "BA")
=============================================================================
