----------------------------- MODULE FastTrace ------------------------------
(* kind "design": cols[c] = <<run, param, fixed-point unit values>> of every   *)
(*   column of every run; kind "plan": expected frequencies;                  *)
(* kind "spec": S1/ST of a sparse spectrum per run; kind "model": S1/ST of a  *)
(* harmonic model per run.                                                    *)
EXTENDS Fast, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, a) == [ok |-> c = "ok", clause |-> c, at |-> a]
(* a floor taken of an exact integer may lose one unit to rounding            *)
Alts(c, i, j) == LET w == Freq(c.N, c.M, c.D, i, j) m == MaxComp(c.N, c.M) k == (IF j < i THEN j ELSE j - 1) - 1 IN
   IF i # j /\ m >= c.D - 1 /\ c.D > 2 /\ k > 0 /\ (k * (m - 1)) % (c.D - 2) = 0 /\ k < c.D - 2 THEN {w, w - 1} ELSE {w}
Design(c) ==
  LET bad == {x \in 1..Len(c.cols) : ~\E w \in Alts(c, c.cols[x][1], c.cols[x][2]) : OnCurve(c.N, w, c.cols[x][3], 12 + w * 2)}
  IN IF ~Admissible(c.N, c.M) THEN V("inadmissible-sampled", 0)
     ELSE IF bad # {} THEN V("off-curve", MinOf(bad)) ELSE V("ok", 0)
Res(c) ==
  CASE c.kind = "design" -> Design(c)
    [] c.kind = "spec" -> [s1 |-> [i \in 1..Len(c.sp) |-> S1Of(c.sp[i], c.N, c.M)], st |-> [i \in 1..Len(c.sp) |-> STOf(c.sp[i], c.N, c.M)], half |-> Half(c.N), w |-> Omega0(c.N, c.M)]
    [] c.kind = "model" ->
         LET sp == [i \in 1..c.D |-> Lines(c.N, c.M, c.D, i, c.terms)] IN
         IF \E i \in 1..c.D : ~Clean(sp[i], c.N) THEN [clean |-> FALSE, s1 |-> <<>>, st |-> <<>>]
         ELSE [clean |-> TRUE, s1 |-> [i \in 1..c.D |-> S1Of(sp[i], c.N, c.M)], st |-> [i \in 1..c.D |-> STOf(sp[i], c.N, c.M)]]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
