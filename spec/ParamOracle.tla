----------------------------- MODULE ParamOracle ----------------------------
(* Reads each case with ParamFile's actions and reports the problem it means. *)
EXTENDS ParamFile, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
OInit == /\ ci = 1 /\ results = <<>> /\ file = Cases[1].chars /\ delim = Cases[1].delim /\ pos = 1 /\ mode = "line" /\ q = "" /\ field = <<>> /\ fields = <<>> /\ rows = <<>>
Live == ci <= Len(Cases)
ReadOn == Live /\ ~Done /\ Read /\ UNCHANGED <<ci, results>>
Finish == /\ Live /\ Done /\ results' = Append(results, Problem(rows)) /\ ci' = ci + 1
          /\ IF ci < Len(Cases) THEN Start(Cases[ci + 1].chars, Cases[ci + 1].delim) ELSE UNCHANGED pfvars
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED <<pfvars, results>>
OSpec == OInit /\ [][ReadOn \/ Finish \/ Write]_<<pfvars, ci, results>>
=============================================================================
