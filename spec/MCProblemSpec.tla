--------------------------- MODULE MCProblemSpec ----------------------------
(* All call histories of at most L calls.                                      *)
EXTENDS ProblemSpec
CONSTANTS L
VARIABLES st, h, last, analysable
vars == <<st, h, last, analysable>>
Ops(v) == [op : {"sample"}, v : {v}, n : {2, 3}, k : {0}, x : {FALSE}, bad : {"no", "raises"}]
     \cup [op : {"set_samples"}, v : {v}, n : {2, 3}, k : {0}, x : {FALSE}, bad : {"no", "cols"}]
     \cup [op : {"evaluate", "evaluate_parallel"}, v : {v}, n : {0}, k : {1, 2}, x : {FALSE}, bad : {"no", "raises"}]
     \cup [op : {"set_results"}, v : {v}, n : {2, 3}, k : {1, 2}, x : {FALSE}, bad : {"no"}]
     \cup [op : {"analyze", "analyze_parallel"}, v : {v}, n : {0}, k : {0}, x : BOOLEAN, bad : {"no", "raises"}]
     \cup [op : {"report"}, v : {v}, n : {0}, k : {0}, x : {FALSE}, bad : {"no"}]
Init == st \in {Empty(o) : o \in 0..2} /\ h = 0 /\ last = [raise |-> FALSE, old |-> st, op |-> "none"] /\ analysable \in BOOLEAN
Take(op) == \E p \in Post(st, op, analysable) : st' = p.st /\ last' = [raise |-> p.raise, old |-> st, op |-> op.op]
Of(name) == {x \in Ops(h + 1) : x.op = name}
Sample == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("sample") : Take(op)
SetSamples == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("set_samples") : Take(op)
Evaluate == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("evaluate") : Take(op)
EvaluateP == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("evaluate_parallel") : Take(op)
SetResults == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("set_results") : Take(op)
Analyze == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("analyze") : Take(op)
AnalyzeP == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("analyze_parallel") : Take(op)
Report == h < L /\ h' = h + 1 /\ UNCHANGED analysable /\ \E op \in Of("report") : Take(op)
Next == Sample \/ SetSamples \/ Evaluate \/ EvaluateP \/ SetResults \/ Analyze \/ AnalyzeP \/ Report
Spec == Init /\ [][Next]_vars
NeverStale == Fresh(st)
OutputsNamed == Coherent(st)
FailKeeps == last.raise => (st.s = last.old.s /\ (last.op # "sample" => st = last.old))
SingleNeverAnalysed == ~analysable => st.a = 0
=============================================================================
