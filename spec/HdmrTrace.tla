----------------------------- MODULE HdmrTrace ------------------------------
(* A recorded HDMR result, numbers in units of 1e-6 (null = undefined):       *)
(* names, order, terms (split labels), S, Sa, Sb, ST, sums, confs; closed =   *)
(* the residual is known to be uncorrelated with every term.                  *)
EXTENDS Hdmr, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, i) == [ok |-> c = "ok", clause |-> c, at |-> i]
Near(x, y, tol) == Abs(x - y) <= tol
Undef == -999999999
Verdict(c) ==
  LET D == Len(c.names) T == TermIdx(D, c.order) n == Len(T)
      Lens == {Len(c.S), Len(c.Sa), Len(c.Sb), Len(c.ST), Len(c.Sconf), Len(c.Saconf), Len(c.Sbconf), Len(c.STconf), Len(c.select)}
      tot(i) == LET f(t) == c.S[t] IN SumSet({t \in 1..n : i \in SubsetOf(T[t])}, f)
      sum(s) == LET f(t) == s[t] IN SumSet(1..n, f)
      FirstBad(P(_), k) == CHOOSE t \in 1..k : ~P(t) /\ \A r \in 1..(t - 1) : P(r)
      total(i) == c.ST[i] # Undef /\ Near(c.ST[i], tot(i), c.tol)
      undef(t) == t <= D \/ c.ST[t] = Undef
      nonneg(t) == c.Sconf[t] >= 0 /\ c.Saconf[t] >= 0 /\ c.Sbconf[t] >= 0 /\ (t > D \/ c.STconf[t] >= 0)
      closed(t) == Near(c.S[t], c.Sa[t] + c.Sb[t], c.ctol)
      picked(t) == c.select[t] >= 0 /\ c.select[t] <= c.selmax
  IN IF Lens # {n} THEN V("entries", 0)
     ELSE IF c.terms # Terms(c.names, c.order) THEN V("terms", 0)
     ELSE IF \E i \in 1..D : ~total(i) THEN V("total", FirstBad(total, D))
     ELSE IF \E t \in 1..n : ~undef(t) THEN V("total-of-interaction", FirstBad(undef, n))
     ELSE IF ~Near(c.Ssum, sum(c.S), c.tol) \/ ~Near(c.Sasum, sum(c.Sa), c.tol) \/ ~Near(c.Sbsum, sum(c.Sb), c.tol) THEN V("sums", 0)
     ELSE IF \E t \in 1..n : ~nonneg(t) THEN V("negative-confidence", FirstBad(nonneg, n))
     ELSE IF \E t \in 1..n : c.Sa[t] < 0 THEN V("negative-structural", 0)
     ELSE IF \E t \in 1..n : ~picked(t) THEN V("selection-count", FirstBad(picked, n))
     ELSE IF c.closed /\ \E t \in 1..n : ~closed(t) THEN V("structural-plus-correlative", FirstBad(closed, n))
     ELSE V("ok", 0)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
