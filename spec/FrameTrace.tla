----------------------------- MODULE FrameTrace -----------------------------
(* A recorded result (entries numbered as ids) with the frames it was         *)
(* converted to.  `active`: the only parameter(s) the output depends on, when *)
(* known; `scores[f]`: rank of the rows of frame f by its main measure.       *)
EXTENDS Frames, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, i) == [ok |-> c = "ok", clause |-> c, at |-> i]
WhyFrame(e, f) ==
  IF f.rows # e.rows THEN "labels"
  ELSE IF Range(f.cols) # e.cols \/ Len(f.cols) # Cardinality(e.cols) THEN "columns"
  ELSE IF \E i \in 1..Len(f.rows), k \in 1..Len(f.cols) : f.cells[i][k] # e.at[i][f.cols[k]] THEN "cell"
  ELSE "ok"
ActiveLabel(c) == {LabelOf(c.kind, c.names, c.groups, c.active[i]) : i \in 1..Len(c.active)}
(* the labels of the best row (rsa: column) of a frame are the active ones *)
WhyScore(c, f) ==
  IF Len(f.scores) = 0 \/ Len(c.active) = 0 THEN "ok"
  ELSE LET labs == IF c.kind = "rsa" THEN [i \in 1..Len(f.cols) |-> <<f.cols[i]>>] ELSE f.rows
           best == CHOOSE i \in 1..Len(f.scores) : \A j \in 1..Len(f.scores) : f.scores[j] <= f.scores[i]
       IN IF Range(labs[best]) = ActiveLabel(c) THEN "ok" ELSE "another-parameters-value"
Verdict(c) ==
  LET E == Frames(c) IN
  IF Len(E) # Len(c.frames) THEN V("number-of-frames", 0)
  ELSE IF \E i \in 1..Len(E) : WhyFrame(E[i], c.frames[i]) # "ok" \/ WhyScore(c, c.frames[i]) # "ok" THEN
    LET i == CHOOSE i \in 1..Len(E) : (WhyFrame(E[i], c.frames[i]) # "ok" \/ WhyScore(c, c.frames[i]) # "ok") /\ \A j \in 1..(i-1) : WhyFrame(E[j], c.frames[j]) = "ok" /\ WhyScore(c, c.frames[j]) = "ok"
    IN IF WhyFrame(E[i], c.frames[i]) # "ok" THEN V(WhyFrame(E[i], c.frames[i]), i) ELSE V(WhyScore(c, c.frames[i]), i)
  ELSE V("ok", 0)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
