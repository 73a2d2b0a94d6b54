--------------------------- MODULE ParallelTrace ----------------------------
(* A recorded parallel run.  kind "rows": n rows were evaluated with p        *)
(* processes; ev = the row numbers of each model call in completion order,    *)
(* res = the row number whose value stands at each place of the result.       *)
(* kind "tasks": got = the index entries filled in by a parallel analysis of  *)
(* d factors, each with the number of the serial entry its value equals.      *)
EXTENDS Parallel, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, i) == [ok |-> c = "ok", clause |-> c, at |-> i]
Flat(e) == UNION {{e[i][k] : k \in 1..Len(e[i])} : i \in 1..Len(e)}
Rng(s) == {s[i] : i \in 1..Len(s)}
Verdict(c) ==
  IF c.kind = "rows" THEN
    IF Len(c.res) # c.n THEN V("number-of-rows", Len(c.res))
    ELSE IF Flat(c.ev) # 1..c.n THEN V("row-not-evaluated", 0)
    ELSE IF c.res # Rows(c.n) THEN V("row-order", CHOOSE i \in 1..c.n : c.res[i] # i)
    ELSE V("ok", 0)
  ELSE LET T == Tasks(c.d, c.so) IN
    IF \E t \in T : t \notin {x.task : x \in Rng(c.got)} THEN V("index-missing", 0)
    ELSE IF \E x \in Rng(c.got) : x.task \notin T THEN V("index-extra", 0)
    ELSE IF \E x \in Rng(c.got) : ~x.same THEN V("index-differs-from-serial", CHOOSE i \in 1..Len(c.got) : ~c.got[i].same)
    ELSE V("ok", 0)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
