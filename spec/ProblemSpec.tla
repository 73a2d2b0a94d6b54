---------------------------- MODULE ProblemSpec -----------------------------
(* The workflow object: samples, results and analysis and what each was made  *)
(* from.  A version is a number unique to one array; 0 = not present.         *)
(*   s, n      exposed samples: version, number of rows                       *)
(*   r, ro, k  exposed results: version, the samples version a model run was  *)
(*             given (0: supplied from outside), number of outputs            *)
(*   a, as, ar exposed analysis: version, samples and results it was computed *)
(*             from (as = 0: the method takes no samples)                     *)
(*   o         number of named outputs (0: not named yet)                     *)
(*   rf        samples version exposed when the results were attached         *)
EXTENDS Integers, Sequences, FiniteSets
Empty(o) == [s |-> 0, n |-> 0, r |-> 0, ro |-> 0, rf |-> 0, k |-> 0, a |-> 0, as |-> 0, ar |-> 0, o |-> o]
NoA(st) == [st EXCEPT !.a = 0, !.as = 0, !.ar = 0]
NoR(st) == NoA([st EXCEPT !.r = 0, !.ro = 0, !.rf = 0, !.k = 0])
Samples(st, v, n) == [NoR(st) EXCEPT !.s = v, !.n = n]
Results(st, v, from, k) == [NoA(st) EXCEPT !.r = v, !.ro = from, !.rf = st.s, !.k = k, !.o = IF st.o = 0 THEN k ELSE st.o]
Analysis(st, v, x) == [st EXCEPT !.a = v, !.as = IF x THEN st.s ELSE 0, !.ar = st.r]
ok(st) == [raise |-> FALSE, st |-> st]
no(st) == [raise |-> TRUE, st |-> st]
OutsFit(st, k) == st.o = 0 \/ st.o = k
(* op: [op, v: fresh version, n: rows, k: outputs, x: method takes samples,   *)
(*      bad: "no" | what is wrong]; analysable: more than one parameter/group *)
Post(st, op, analysable) ==
  CASE op.op = "sample" ->                 \* run a sampler
         IF op.bad = "raises"              \* failing sampler keeps the samples and, at most, drops what was made from them
         THEN {no(st), no(NoR(st)), no(NoA(st))}
         ELSE {ok(Samples(st, op.v, op.n))}
    [] op.op = "set_samples" -> {IF op.bad = "cols" THEN no(st) ELSE ok(Samples(st, op.v, op.n))}
    [] op.op \in {"evaluate", "evaluate_parallel"} ->  \* the model is run on the exposed samples
         {IF st.s = 0 \/ op.bad = "raises" \/ ~OutsFit(st, op.k) THEN no(st) ELSE ok(Results(st, op.v, st.s, op.k))}
    [] op.op = "set_results" ->            \* op.n rows supplied from outside
         {IF (st.s # 0 /\ op.n # st.n) \/ ~OutsFit(st, op.k) THEN no(st) ELSE ok(Results(st, op.v, 0, op.k))}
    [] op.op \in {"analyze", "analyze_parallel"} ->
         {IF ~analysable \/ st.r = 0 \/ op.bad = "raises" THEN no(st) ELSE ok(Analysis(st, op.v, op.x))}
    [] op.op = "report" ->                 \* to_df / plot / heatmap: no effect on the object
         {IF st.a = 0 THEN no(st) ELSE ok(st)}
(* the guarantee *)
Fresh(st) == /\ (st.r # 0 => st.rf = st.s)
             /\ (st.ro # 0 => st.ro = st.s)
             /\ (st.a # 0 => st.r # 0 /\ st.ar = st.r /\ (st.as # 0 => st.as = st.s))
Coherent(st) == (st.r # 0 => st.o = st.k) /\ (st.r = 0 => st.k = 0)
=============================================================================
