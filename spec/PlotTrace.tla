------------------------------ MODULE PlotTrace ------------------------------
EXTENDS Plots, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c) ==
  IF ~c.frozen THEN "result-modified"
  ELSE CASE c.kind = "bars" -> IF Len(c.axes) # Len(c.frames) THEN "axes-count"
                               ELSE LET bad == {k \in Idx(c.axes) : BarVerdict(c.axes[k], c.frames[k], c.zero) # "ok"} IN
                                    IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN BarVerdict(c.axes[k], c.frames[k], c.zero)
                                    ELSE IF \E k \in Idx(c.axes) : c.axes[k].title # c.frames[k].title THEN "axes-title" ELSE "ok"
         [] c.kind = "morris" -> MorrisVerdict(c.drawn, c.rows)
         [] c.kind = "cov" -> CovVerdict(c.drawn, c.mustar, c.sigma, c.conf)
         [] c.kind = "heat" -> HeatVerdict(c.drawn, c.keys, c.asked, c.names, c.title)
         [] c.kind = "hist" -> HistVerdict(c.drawn, c.names, c.lv)
         [] c.kind = "curves" -> CurveVerdict(c.drawn, c.want)
Res(c) == LET v == V(c) IN [ok |-> v = "ok", clause |-> v, at |-> 0]
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Res(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
