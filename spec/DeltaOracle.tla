----------------------------- MODULE DeltaOracle -----------------------------
EXTENDS Delta, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
Fmt(o) == o
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Res(c) ==
  CASE c.kind = "s1" -> [vals |-> SetSeq({S1(k, c.ys, c.M) : k \in Comps(c.R, Len(c.ys))})]
    [] c.kind = "stage" ->
         LET b == Balanced(c.xs, c.cnt, c.spec, c.R)
             sp == c.method # "sobol" /\ b.ok /\ StepPossible(c.xs, c.cnt)
         IN [out |-> Outcome(c.xs, c.cnt, c.spec, c.R, c.method),
             bal |-> Fixed(b, c.R, Len(c.xs)),
             step |-> IF sp THEN StepFixed(c.xs, c.cnt, c.R) ELSE <<>>]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
