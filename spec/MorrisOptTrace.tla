--------------------------- MODULE MorrisOptTrace ---------------------------
EXTENDS MorrisOpt, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(ok, c) == [ok |-> ok, clause |-> c, at |-> 0]
Verdict(c) ==
  IF Len(c.opt) # c.k THEN V(FALSE, "count")
  ELSE LET e == Embed(c.pool, c.opt, 1, 1) IN
  IF Len(e) # c.k \/ \E i \in 1..Len(e) : e[i] = 0 THEN V(FALSE, "not-a-pool-subset-in-order")
  ELSE IF c.best = "no" THEN V(TRUE, "ok")
  ELSE LET n == Len(c.pool)
           dm == TLCEval([i \in 1..n |-> TLCEval([h \in 1..n |-> TDist(c.pool[i], c.pool[h])])])
           sl == Slack(c.pool[1])
           mine == BigSum(dm, Pairs({e[i] : i \in 1..c.k}), sl)
           me == {e[i] : i \in 1..c.k}
           rivals == IF c.best = "pairs" THEN KSubsets(n, 2)
                     ELSE IF c.best = "swaps" THEN {(me \ {x}) \cup {y} : x \in me, y \in (1..n) \ me}   \* too many subsets to list: no exchange of one trajectory gains
                     ELSE KSubsets(n, c.k)
       IN IF c.best = "pairs" /\ ~ LocalOk(dm, me, c.k, sl) THEN V(FALSE, "not-a-local-search-result")
          ELSE IF \A S \in rivals : BLe(BigSum(dm, Pairs(S), 0), mine) THEN V(TRUE, "ok") ELSE V(FALSE, "not-maximal")
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
