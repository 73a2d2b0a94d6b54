----------------------------- MODULE AliasTrace -----------------------------
(* A recorded history of calls sharing data.  Each step: op, the contents     *)
(* (numbers) of every watched object before and after, the fields of the      *)
(* problem given (b, a) and of the other problem built from the same lists    *)
(* (ob, oa), the keys added, and whether the answer equals the answer for     *)
(* private copies of everything (same).                                       *)
EXTENDS Aliasing, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, i) == [ok |-> c = "ok", clause |-> c, at |-> i]
Rng(s) == {s[i] : i \in 1..Len(s)}
Why(s) ==
  IF s.raised THEN "valid-call-fails"
  ELSE IF s.x0 # s.x1 THEN "input-matrix-changed"
  ELSE IF s.y0 # s.y1 THEN "output-vector-changed"
  ELSE IF s.l0 # s.l1 THEN "shared-list-changed"
  ELSE IF s.ob # s.oa THEN "other-problem-changed"
  ELSE IF ~ProblemOK(s.op, s.b, s.a) THEN "problem-changed"
  ELSE IF ~(Rng(s.extra) \subseteq AllowedExtra(s.op)) THEN "keys-added"
  ELSE IF ~s.same THEN "result-depends-on-earlier-calls"
  ELSE "ok"
Verdict(c) == IF \A i \in 1..Len(c.steps) : Why(c.steps[i]) = "ok" THEN V("ok", 0)
              ELSE LET i == CHOOSE i \in 1..Len(c.steps) : Why(c.steps[i]) # "ok" /\ \A j \in 1..(i-1) : Why(c.steps[j]) = "ok" IN V(Why(c.steps[i]), i)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
