-------------------------------- MODULE Plots --------------------------------
(* What a chart of an analysis shows.  Numbers are compared by identity only:   *)
(* they are integers here (ranks of the real values; NaN is -1).                *)
EXTENDS Integers, Sequences, FiniteSets
NaN == -1
Idx(s) == 1..Len(s)

\* --- bar chart of a frame [idx, cols (seq of [name, conf, base]), cells[c][row]]
ValueCols(fr) == SelectSeq([c \in Idx(fr.cols) |-> c], LAMBDA c : ~fr.cols[c].conf)
ConfCol(fr, name) == {c \in Idx(fr.cols) : fr.cols[c].conf /\ fr.cols[c].base = name}
BarSeries(fr, c) == [name |-> fr.cols[c].name, h |-> fr.cells[c],
                     half |-> IF ConfCol(fr, fr.cols[c].name) = {} THEN <<>> ELSE fr.cells[CHOOSE k \in ConfCol(fr, fr.cols[c].name) : TRUE]]
BarChart(fr) == [labels |-> fr.idx, series |-> LET v == ValueCols(fr) IN [k \in Idx(v) |-> BarSeries(fr, v[k])]]
SameHeight(drawn, cell, zero) == drawn = cell \/ (cell = NaN /\ drawn = zero)
BarVerdict(ax, fr, zero) ==
  LET e == BarChart(fr) IN
  IF ax.labels # e.labels THEN "bar-labels"
  ELSE IF [k \in Idx(ax.series) |-> ax.series[k].name] # [k \in Idx(e.series) |-> e.series[k].name] THEN "bar-series"
  ELSE IF \E k \in Idx(e.series) : Len(ax.series[k].h) # Len(e.series[k].h) THEN "bar-count"
  ELSE IF \E k \in Idx(e.series) : \E i \in Idx(e.series[k].h) : ~SameHeight(ax.series[k].h[i], e.series[k].h[i], zero) THEN "bar-height"
  ELSE IF \E k \in Idx(e.series) : (e.series[k].half = <<>>) # (ax.series[k].half = <<>>) THEN "bar-error-missing"
  ELSE IF \E k \in Idx(e.series) : \E i \in Idx(e.series[k].half) :
            e.series[k].half[i] # NaN /\ e.series[k].h[i] # NaN /\ ax.series[k].half[i] # e.series[k].half[i] THEN "bar-error"
  ELSE "ok"

\* --- Morris bar chart: rows of the result [name, v, conf, key], drawn from the bottom in ascending order of key
RowOf(rows, name) == rows[CHOOSE i \in Idx(rows) : rows[i].name = name]
MorrisVerdict(d, rows) ==
  IF Len(d) # Len(rows) \/ {d[i].name : i \in Idx(d)} # {rows[i].name : i \in Idx(rows)} THEN "morris-labels"
  ELSE IF \E i \in Idx(d) : d[i].v # RowOf(rows, d[i].name).v THEN "morris-value-under-label"
  ELSE IF \E i \in Idx(d) : d[i].conf # RowOf(rows, d[i].name).conf THEN "morris-error-bar"
  ELSE IF \E i \in 1..Len(d) - 1 : RowOf(rows, d[i].name).key > RowOf(rows, d[i+1].name).key THEN "morris-order"
  ELSE "ok"

\* --- mu* against sigma, or against the confidence interval where sigma does not exist
CovPoints(mustar, sigma, conf) == LET y == IF \E i \in Idx(sigma) : sigma[i] = NaN THEN conf ELSE sigma IN [i \in Idx(mustar) |-> <<mustar[i], y[i]>>]
CovVerdict(d, mustar, sigma, conf) == IF d # CovPoints(mustar, sigma, conf) THEN "covariance-points" ELSE "ok"

\* --- heat map: keys (seq of [name, conf, numeric, cells]) ; asked = names asked for (<<>> = all)
Shown(keys, asked) ==
  LET order == IF asked = <<>> THEN [i \in Idx(keys) |-> i] ELSE [j \in Idx(asked) |-> CHOOSE i \in Idx(keys) : keys[i].name = asked[j]]
      val == SelectSeq(order, LAMBDA i : ~keys[i].conf)
      w == IF val = <<>> THEN 0 ELSE Len(keys[val[1]].cells)
  IN SelectSeq(val, LAMBDA i : keys[i].numeric /\ Len(keys[i].cells) = w)
HeatVerdict(d, keys, asked, names, title) ==
  LET s == Shown(keys, asked) IN
  IF d.rows # [k \in Idx(s) |-> keys[s[k]].name] THEN "heat-row-labels"
  ELSE IF d.cols # names THEN "heat-column-labels"
  ELSE IF d.cells # [k \in Idx(s) |-> keys[s[k]].cells] THEN "heat-cells"
  ELSE IF d.title # title THEN "heat-title" ELSE "ok"

\* --- histograms of a design: per parameter the samples' level numbers (0-based, equally spaced) and the drawn counts
Count(lv, l) == Cardinality({i \in Idx(lv) : lv[i] = l})
HistVerdict(d, names, lv) ==
  IF [k \in Idx(d) |-> d[k].title] # names THEN "hist-titles"
  ELSE IF \E k \in Idx(d) : d[k].counts # [l \in 1..Len(d[k].counts) |-> Count(lv[k], l - 1)] \/ Len(d[k].counts) # Cardinality({lv[k][i] : i \in Idx(lv[k])}) THEN "hist-counts"
  ELSE "ok"

\* --- line and point plots: every curve is the expected sequence of points
CurveVerdict(d, e) == IF Len(d) # Len(e) THEN "curve-count"
                      ELSE IF \E k \in Idx(e) : d[k].title # e[k].title THEN "curve-title"
                      ELSE IF \E k \in Idx(e) : d[k].x # e[k].x \/ d[k].y # e[k].y THEN "curve-points" ELSE "ok"
=============================================================================
