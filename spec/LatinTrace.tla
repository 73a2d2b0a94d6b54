----------------------------- MODULE LatinTrace -----------------------------
(* A recorded design: grp (group number of each parameter), n, st[j] = stratum *)
(* sequence of column j, id[j] = identity class of column j's unit draws, or a *)
(* set of designs for one group assignment: orders[k] = the columns of run k,  *)
(* which must jointly show every pair of relative orders (cover), or runs[k][j]*)
(* = set of rows of run k at which column j lies in the lower half of its      *)
(* strata (halves): over all runs columns of different groups, and columns and *)
(* row numbers, meet as often as independence implies (within slack).          *)
EXTENDS Latin, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c) == [ok |-> c = "ok", clause |-> c, at |-> 0]
Rel(a, b) == [v \in 0..(Len(a)-1) |-> b[CHOOSE i \in 1..Len(a) : a[i] = v]]
Verdict(c) ==
  LET D == Len(c.grp) IN
  IF c.kind = "cover" THEN
    LET P == Perms(c.n)
        miss(i, j) == {Rel(o[i], o[j]) : o \in {c.orders[k] : k \in 1..Len(c.orders)}}
        full == {[v \in 0..(c.n-1) |-> p[v+1]] : p \in P}
    IN IF \E k \in 1..Len(c.orders) : ~LegalColumns(c.grp, c.n, c.orders[k]) THEN V("stratified")
       ELSE IF \E i \in 1..D : {[v \in 1..c.n |-> o[i][v]] : o \in {c.orders[k] : k \in 1..Len(c.orders)}} # P THEN V("orders-not-all-reachable")
       ELSE IF \E i, j \in 1..D : c.grp[i] # c.grp[j] /\ miss(i, j) # full THEN V("groups-not-independent")
       ELSE V("ok")
  ELSE IF c.kind = "halves" THEN
    LET R == TLCEval([k \in 1..Len(c.runs) |-> TLCEval([j \in 1..D |-> {c.runs[k][j][i] : i \in 1..Len(c.runs[k][j])}])])
        low == 1..(c.n \div 2)
        meets(f(_)) == LET RECURSIVE go(_) go(k) == IF k = 0 THEN 0 ELSE Cardinality(f(k)) + go(k - 1) IN go(Len(R))
        off(x) == LET d == 4 * x - c.n * Len(R) IN d > 4 * c.slack \/ d < -4 * c.slack
    IN IF \E k \in 1..Len(R) : \E j \in 1..D : Cardinality(R[k][j]) # c.n \div 2 THEN V("stratified")
       ELSE IF \E j \in 1..D : LET f(k) == R[k][j] \cap low IN off(meets(f)) THEN V("order-not-random")
       ELSE IF \E i, j \in 1..D : c.grp[i] # c.grp[j] /\ LET f(k) == R[k][i] \cap R[k][j] IN off(meets(f)) THEN V("groups-not-independent")
       ELSE V("ok")
  ELSE IF Len(c.st) # D \/ \E j \in 1..D : Len(c.st[j]) # c.n THEN V("shape")
  ELSE IF \E j \in 1..D : ~IsPerm(c.st[j]) THEN V("stratified")
  ELSE IF \E i, j \in 1..D : c.grp[i] = c.grp[j] /\ c.id[i] # c.id[j] THEN V("members-differ")
  ELSE IF \E i, j \in 1..D : c.grp[i] # c.grp[j] /\ c.id[i] = c.id[j] THEN V("groups-share-draws")
  ELSE IF \E i, j \in 1..D : c.grp[i] # c.grp[j] /\ c.off[i] = c.off[j] THEN V("groups-share-offsets")
  ELSE V("ok")
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
