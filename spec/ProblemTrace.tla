---------------------------- MODULE ProblemTrace ----------------------------
(* Recorded histories of the workflow object: every call must be a step the   *)
(* specification allows from the state exposed before it.                     *)
EXTENDS ProblemSpec, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, i) == [ok |-> c = "ok", clause |-> c, at |-> i]
Vis(st) == [s |-> st.s, r |-> st.r, ro |-> st.ro, k |-> st.k, a |-> st.a, as |-> st.as, ar |-> st.ar, o |-> st.o]
Step(c, i, st) ==      \* allowed successors whose observable part is what was recorded
  LET e == c.steps[i]
  IN {p \in Post(st, e.op, c.analysable) : p.raise = e.raise /\ Vis(p.st) = e.obs}
Why(c, i, st) ==
  LET e == c.steps[i]
      P == Post(st, e.op, c.analysable)
      X == CHOOSE p \in P : TRUE
  IN IF \A p \in P : p.raise /\ ~e.raise THEN "misuse-accepted"
     ELSE IF \A p \in P : ~p.raise /\ e.raise THEN "valid-call-fails"
     ELSE IF e.obs.s # X.st.s THEN "samples"
     ELSE IF e.raise THEN "failing-call-changes-state"
     ELSE IF e.obs.r # X.st.r \/ e.obs.ro # X.st.ro \/ e.obs.k # X.st.k THEN "results"
     ELSE IF e.obs.a # X.st.a \/ e.obs.ar # X.st.ar \/ e.obs.as # X.st.as THEN "analysis"
     ELSE "outputs"
RECURSIVE Go(_, _, _)
Go(c, i, st) ==
  IF i > Len(c.steps) THEN V("ok", i)
  ELSE IF Step(c, i, st) = {} THEN V(Why(c, i, st), i)
  ELSE Go(c, i + 1, (CHOOSE p \in Step(c, i, st) : TRUE).st)
Verdict(c) == Go(c, 1, Empty(c.o))
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
