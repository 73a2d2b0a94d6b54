------------------------------- MODULE MCPlots -------------------------------
(* Charts drawn step by step for every small result.  Morris: the displayed     *)
(* lists are reordered one after another by the same ascending order of the     *)
(* key.  Heat map: values are stacked one by one, each bringing its label.      *)
(* Bars: series by series, the error looked up by name.                         *)
EXTENDS Plots, TLC
CONSTANTS N, V, OwnOrder, PrefixLabels, ByPosition     \* the last three: wrong designs
VARIABLES kind, res, draw, todo, ord
vars == <<kind, res, draw, todo, ord>>
Names == <<"p3", "p1", "p2", "p4">>
Vals == 0..V - 1
Rows(v, c, k) == [i \in 1..N |-> [name |-> Names[i], v |-> v[i], conf |-> c[i], key |-> k[i]]]
Perms == {p \in [1..N -> 1..N] : \A i, j \in 1..N : p[i] = p[j] => i = j}
Ascending(p, k) == \A i \in 1..N - 1 : k[p[i]] <= k[p[i+1]]
Sets == [1..N -> Vals]
Cols == <<[name |-> "A", conf |-> FALSE, base |-> ""], [name |-> "B", conf |-> FALSE, base |-> ""], [name |-> "B_conf", conf |-> TRUE, base |-> "B"], [name |-> "A_conf", conf |-> TRUE, base |-> "A"]>>
Keys(S) == [i \in 1..4 |-> [name |-> <<"A", "M", "B", "A_conf">>[i], conf |-> i = 4, numeric |-> TRUE, cells |-> IF i = S THEN [j \in 1..N * N |-> 0] ELSE [j \in 1..N |-> i]]]
Init == \/ /\ kind = "morris" /\ \E v, c, k \in Sets : res = [v |-> v, conf |-> c, key |-> k] /\ draw = [x \in {} |-> 0] /\ todo = {"name", "v", "conf"}
           /\ ord \in {p \in Perms : Ascending(p, res.key)}
        \/ /\ kind = "heat" /\ \E S \in 2..4 : res = [keys |-> Keys(S)] /\ draw = [rows |-> <<>>, cells |-> <<>>] /\ todo = {1, 2, 3, 4} /\ ord = <<>>
        \/ /\ kind = "bar" /\ \E a, b \in Sets : res = [idx |-> SubSeq(Names, 1, N), cols |-> Cols, cells |-> <<a, b, [i \in 1..N |-> V + 1], [i \in 1..N |-> V + 2]>>]
           /\ draw = <<>> /\ todo = {1, 2} /\ ord = <<>>
Sorted(s, own) == LET p == IF own THEN CHOOSE p \in Perms : Ascending(p, s) ELSE ord IN [i \in 1..N |-> s[p[i]]]
Reorder == /\ kind = "morris"
           /\ \E f \in todo : /\ draw' = [x \in DOMAIN draw \cup {f} |-> IF x = f THEN (IF f = "name" THEN [i \in 1..N |-> Names[ord[i]]] ELSE Sorted(res[f], OwnOrder)) ELSE draw[x]]
                              /\ todo' = todo \ {f}
           /\ UNCHANGED <<kind, res, ord>>
Stack == /\ kind = "heat"
         /\ todo # {}
         /\ LET i == CHOOSE i \in todo : \A j \in todo : i <= j
                show == ~res.keys[i].conf /\ Len(res.keys[i].cells) = Len(res.keys[1].cells)
                n == Len(draw.rows) + 1
            IN /\ draw' = IF show THEN [rows |-> Append(draw.rows, res.keys[IF PrefixLabels THEN n ELSE i].name), cells |-> Append(draw.cells, res.keys[i].cells)] ELSE draw
               /\ todo' = todo \ {i}
         /\ UNCHANGED <<kind, res, ord>>
Series == /\ kind = "bar"
          /\ todo # {}
          /\ LET i == CHOOSE i \in todo : \A j \in todo : i <= j
                 c == IF ByPosition THEN 2 + i ELSE CHOOSE k \in 3..4 : res.cols[k].base = res.cols[i].name
             IN draw' = Append(draw, [name |-> res.cols[i].name, h |-> res.cells[i], half |-> res.cells[c]]) /\ todo' = todo \ {i}
          /\ UNCHANGED <<kind, res, ord>>
Next == Reorder \/ Stack \/ Series
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Faithful == todo = {} =>
  CASE kind = "morris" -> MorrisVerdict([i \in 1..N |-> [name |-> draw["name"][i], v |-> draw["v"][i], conf |-> draw["conf"][i]]], Rows(res.v, res.conf, res.key)) = "ok"
    [] kind = "heat" -> HeatVerdict([rows |-> draw.rows, cells |-> draw.cells, cols |-> Names, title |-> ""], res.keys, <<>>, Names, "") = "ok"
    [] kind = "bar" -> BarVerdict([labels |-> res.idx, series |-> draw], res, 0) = "ok"
Drawn == <>(todo = {})
=============================================================================
