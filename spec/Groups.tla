------------------------------- MODULE Groups -------------------------------
(* Group assignments: a problem's `groups` entry is a sequence of labels, one *)
(* per parameter.  Groups are numbered by first appearance.                   *)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}

(* Members of the group of parameter j *)
FirstOf(g, j) == CHOOSE i \in 1..j : g[i] = g[j] /\ \A h \in 1..(i-1) : g[h] # g[j]
Leaders(g) == {j \in 1..Len(g) : FirstOf(g, j) = j}
(* rank of a leader = number of leaders up to and including it *)
Canon(g) == [j \in 1..Len(g) |-> Cardinality({h \in Leaders(g) : h <= FirstOf(g, j)})]
NumGroups(g) == Cardinality(Leaders(g))
(* Effective grouping: a single group is the same as no grouping at all *)
Identity(D) == [j \in 1..D |-> j]
Effective(g) == IF NumGroups(g) <= 1 THEN Identity(Len(g)) ELSE Canon(g)
Members(cg, k) == {j \in 1..Len(cg) : cg[j] = k}

(* all set partitions of 1..D in canonical (restricted growth) numbering *)
Partitions(D) == {g \in [1..D -> 1..D] : g = Canon(g)}
=============================================================================
