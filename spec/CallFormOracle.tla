---------------------------- MODULE CallFormOracle --------------------------
EXTENDS CallForm, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
(* "table": the signatures (the harness builds its calls from them)
   "call": the meaning of a call, every option by name (None resolved)
   "layout": offset, strides and size of a matrix in memory                    *)
Res(c) ==
  CASE c.kind = "table" -> Sig
    [] c.kind = "call" ->
        LET s == Sig[c.m] b == Bind(s, c.form, c.pos, c.kw) IN
        IF b = Error THEN [ok |-> FALSE, a |-> <<>>, prints |-> FALSE]
        ELSE [ok |-> TRUE,
              a |-> [n \in DOMAIN b |-> IF n \in Presentation THEN Default(s, n) ELSE IF b[n] = "None" /\ StandsFor(c.m, n, c.size, b) > 0 THEN ToString(StandsFor(c.m, n, c.size, b)) ELSE b[n]],
              prints |-> "print_to_console" \in DOMAIN b /\ b["print_to_console"] = "True"]
    [] c.kind = "layout" -> Lay(c.l, c.r, c.c)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
