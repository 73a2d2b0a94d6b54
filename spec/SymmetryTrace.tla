---------------------------- MODULE SymmetryTrace ---------------------------
(* A recorded pair of analyses of the same study.  Values are identity classes *)
(* of numbers (equal within rounding).  Each key has base values b (rows of one *)
(* entry per label) and the transformed study's values divided by 1, a, |a|,   *)
(* a^2 and sign(a): t.same, t.lin, t.abs, t.sq, t.sgn.                          *)
EXTENDS Symmetry, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, k) == [ok |-> c = "ok", clause |-> c, at |-> k]
Shape(m) == <<Len(m), IF Len(m) = 0 THEN 0 ELSE Len(m[1])>>
KeyOK(c, k) ==
  LET law == Law(c.kind, c.method, k.key)
      n == NumGroups(c.grp)
      old(i) == IF c.kind = "perm" THEN OldLabel(c.grp, c.perm, i) ELSE i
      t == IF law \in {"first", "kept"} THEN k.t.same ELSE k.t[law]
  IN IF law = "none" \/ (law = "first" /\ n < Len(c.grp)) THEN "ok"
     ELSE IF Shape(t) # Shape(k.b) \/ Shape(t)[2] # n THEN "shape"
     ELSE IF k.form = "vec" THEN
       (IF \A r \in 1..Len(t) : \A i \in 1..(IF law = "first" THEN (IF old(1) = 1 THEN 1 ELSE 0) ELSE n) : t[r][i] = k.b[r][old(i)] THEN "ok" ELSE "values")
     ELSE IF k.form = "pair" THEN    \* upper triangle, each pair in its listed order
       (IF \A i, j \in 1..n : i < j /\ old(i) < old(j) => t[i][j] = k.b[old(i)][old(j)] THEN "ok" ELSE "pairs")
     ELSE \* "sympair": upper triangle, unordered pairs
       (IF \A i, j \in 1..n : i < j => t[i][j] = (IF old(i) < old(j) THEN k.b[old(i)][old(j)] ELSE k.b[old(j)][old(i)]) THEN "ok" ELSE "pairs")
Verdict(c) ==
  LET bad == {q \in 1..Len(c.keys) : KeyOK(c, c.keys[q]) # "ok"} IN
  IF c.names # c.expected THEN V("labels", 0)
  ELSE IF bad = {} THEN V("ok", 0) ELSE LET q == CHOOSE q \in bad : \A r \in bad : q <= r IN V(c.kind \o "-" \o KeyOK(c, c.keys[q]), q)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
