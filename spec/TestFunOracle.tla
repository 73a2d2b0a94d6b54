---------------------------- MODULE TestFunOracle ----------------------------
EXTENDS TestFunctions, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
Res(c) ==
  CASE c.f = "ishigami" -> [v |-> Ishigami(c.i, c.j, c.x3, c.A, c.B)]
    [] c.f = "linear1" -> [v |-> Linear1(c.x)]
    [] c.f = "linear2" -> [v |-> Linear2(c.x)]
    [] c.f = "oakley" -> [v |-> Oakley(c.k, c.a1, c.a2, c.a3, c.M)]
    [] c.f = "g" -> [ok |-> GDefined(c.x, c.d, c.p), v |-> IF GDefined(c.x, c.d, c.p) THEN [i \in 1..Len(c.x) |-> GFactor(c.x[i], c.a[i], c.d[i], c.p[i])] ELSE <<>>]
    [] c.f = "gparts" -> [v |-> GPartsOf(c.a, c.p)]
    [] c.f = "gindex" -> LET v == GPartsOf(c.a, c.p) IN [v |-> v, tot |-> GTotalOf(v), s |-> [i \in 1..Len(v) |-> GS(v, i)], st |-> [i \in 1..Len(v) |-> GST(v, i)]]
    [] c.f = "lakestep" -> [v |-> LakeStep(c.X, c.a, c.q, c.b, c.e)]
    [] c.f = "lakerun" -> [v |-> LakeRun(c.a, c.q, c.b, c.e, c.n)]
    [] c.f = "lakeutil" -> [v |-> LakeUtility(c.al, c.a, c.de, c.n), inertia |-> LakeInertia(c.a, c.n)]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
