------------------------------- MODULE Frames -------------------------------
(* Tabular form of analysis results.  Entities are the parameters, or the     *)
(* groups in order of first appearance when the method honours groups and     *)
(* there is more than one.  A frame is [rows, cols, cells]: rows are          *)
(* sequences of labels (one, a pair, or the members of a term).               *)
EXTENDS Groups, TLC
Honours(kind) == kind \in {"sobol", "morris", "pawn", "rsa", "discrepancy"}
Grouped(kind, groups) == Honours(kind) /\ Len(groups) > 0 /\ NumGroups(groups) > 1
Firsts(g) == LET lead(j) == FirstOf(g, j) = j IN SelectSeq([j \in 1..Len(g) |-> j], lead)
Labels(kind, names, groups) ==
  IF Grouped(kind, groups) THEN LET f == Firsts(groups) IN [i \in 1..Len(f) |-> groups[f[i]]] ELSE names
LabelOf(kind, names, groups, j) == IF Grouped(kind, groups) THEN groups[j] ELSE names[j]

Single(lab) == [i \in 1..Len(lab) |-> <<lab[i]>>]
(* pairs, row by row of the upper triangle / column by column of the lower one *)
PairsIdx(n) == LET all == [k \in 1..(n * n) |-> <<((k - 1) \div n) + 1, ((k - 1) % n) + 1>>]
                   up(p) == p[1] < p[2] IN SelectSeq(all, up)
PairsCol(n) == LET all == [k \in 1..(n * n) |-> <<((k - 1) % n) + 1, ((k - 1) \div n) + 1>>]
                   up(p) == p[1] < p[2] IN SelectSeq(all, up)
TriplesIdx(n) == LET all == [k \in 1..(n * n * n) |-> <<((k - 1) \div (n * n)) + 1, (((k - 1) \div n) % n) + 1, ((k - 1) % n) + 1>>]
                     up(p) == p[1] < p[2] /\ p[2] < p[3] IN SelectSeq(all, up)
Named(ix, lab) == [i \in 1..Len(ix) |-> [k \in 1..Len(ix[i]) |-> lab[ix[i][k]]]]
TermIdx(n, ord) == [i \in 1..n |-> <<i>>] \o (IF ord >= 2 THEN PairsIdx(n) ELSE <<>>) \o (IF ord >= 3 THEN TriplesIdx(n) ELSE <<>>)
Terms(lab, ord) == Named(TermIdx(Len(lab), ord), lab)

(* the frames of a result: rows with, per column, the entry of the result     *)
Column(rows, col, val(_)) == [i \in 1..Len(rows) |-> val(i)]
Frame(rows, cols, at(_, _)) == [rows |-> rows, cols |-> cols, at |-> [i \in 1..Len(rows) |-> [k \in cols |-> at(i, k)]]]
Pow2(n) == CHOOSE p \in {1, 2, 4, 8, 16, 32, 64} : p >= n /\ (p = 1 \/ p \div 2 < n)
Padded(names) == names \o [i \in 1..(Pow2(Len(names)) - Len(names)) |-> "dummy_" \o ToString(i - 1)]
Columns(kind) ==
  CASE kind = "morris" -> {"mu", "mu_star", "sigma", "mu_star_conf"}
    [] kind = "fast" -> {"S1", "ST", "S1_conf", "ST_conf"}
    [] kind = "rbd_fast" -> {"S1", "S1_conf"}
    [] kind = "delta" -> {"delta_balanced", "delta_balanced_conf", "delta_raw", "delta_raw_conf", "delta_step", "delta_step_conf", "S1", "S1_conf", "notes"}
    [] kind = "dgsm" -> {"vi", "vi_std", "dgsm", "dgsm_conf"}
    [] kind = "pawn" -> {"minimum", "mean", "median", "maximum", "CV", "stdev"}
    [] kind = "discrepancy" -> {"s_discrepancy"}
Frames(c) ==
  LET L == Labels(c.kind, c.names, c.groups) IN
  CASE c.kind = "sobol" ->
         LET px == PairsIdx(Len(L)) f(i, k) == c.res[k][i] s(i, k) == c.res[k][px[i][1]][px[i][2]] IN
         <<Frame(Single(L), {"ST", "ST_conf"}, f), Frame(Single(L), {"S1", "S1_conf"}, f)>> \o (IF c.order = 2 THEN <<Frame(Named(px, L), {"S2", "S2_conf"}, s)>> ELSE <<>>)
    [] c.kind = "ff" ->
         LET P == Padded(L) m(i, k) == c.res.ME[i] e(i, k) == c.res.IE[i] IN
         <<Frame(Single(P), {"ME"}, m)>> \o (IF c.order = 2 THEN <<Frame(Named(PairsCol(Len(P)), P), {"IE"}, e)>> ELSE <<>>)
    [] c.kind = "rsa" ->
         LET v(i, k) == c.res[k][i] IN <<Frame([i \in 1..Len(c.bins) |-> <<c.bins[i]>>], Range(L), v)>>
    [] c.kind \in {"hdmr", "enhanced_hdmr"} ->
         LET v(i, k) == c.res[k][i] IN <<Frame(Terms(L, c.order), {"Sa", "Sa_conf", "Sb", "Sb_conf", "S", "S_conf", "ST", "ST_conf"}, v)>>
    [] OTHER -> LET v(i, k) == c.res[k][i] IN <<Frame(Single(L), Columns(c.kind), v)>>
=============================================================================
