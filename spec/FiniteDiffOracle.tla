--------------------------- MODULE FiniteDiffOracle ---------------------------
EXTENDS FiniteDiff, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
(* kind "design": u[b][j] = integer numerator of the b-th base coordinate over c.den;
   kind "codes": per row codes 0 unchanged / 1 legal step / 2 other *)
BasePt(c, b) == [j \in 1..Len(c.lim) |-> RAdd(c.lim[j][1], RMul(R(c.u[b][j], c.den), RSub(c.lim[j][2], c.lim[j][1])))]
Res(c) ==
  CASE c.kind = "design" ->
        LET D == Len(c.lim) IN
        [rows |-> [r \in 1..(Len(c.u) * (D + 1)) |-> Row(BasePt(c, ((r - 1) \div (D + 1)) + 1), (r - 1) % (D + 1), c.d, c.lim)]]
    [] c.kind = "codes" ->
        LET bad == {r \in 1..Len(c.codes) : LET k == (r - 1) % (c.D + 1) IN \E j \in 1..c.D : c.codes[r][j] # (IF j = k THEN 1 ELSE 0)}
        IN IF Len(c.codes) # c.N * (c.D + 1) THEN [ok |-> FALSE, clause |-> "row-count", at |-> 0]
           ELSE IF bad # {} THEN [ok |-> FALSE, clause |-> "row-kind", at |-> MinOf(bad)] ELSE [ok |-> TRUE, clause |-> "ok", at |-> 0]
    [] c.kind = "measure" ->
        [vi |-> [j \in 1..c.D |-> Mean(Sq(c.X, c.y, c.D, c.N, j))], var |-> [j \in 1..c.D |-> PVar(Sq(c.X, c.y, c.D, c.N, j))],
         dg |-> [j \in 1..c.D |-> DgsmPi2(c.X, c.y, c.D, c.N, j, c.range[j])]]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
