------------------------------ MODULE MCDomain ------------------------------
(* A user edits a request, one argument at a time, starting from one inside the *)
(* domain.  Violated is consistent with Limits, every limit is bracketed (some  *)
(* request within two edits breaks it and nothing else, so that no limit is      *)
(* implied by others).                                                          *)
EXTENDS Domain
CONSTANTS MAXEDITS
VARIABLES r, edits
vars == <<r, edits>>
Init == \E op \in Ops : r = [op |-> op, f |-> Start(op)] /\ edits = 0
Edit == /\ edits < MAXEDITS
        /\ \E k \in DOMAIN Values(r.op) : \E v \in Values(r.op)[k] : v # r.f[k] /\ r' = [r EXCEPT !.f[k] = v]
        /\ edits' = edits + 1
Spec == Init /\ [][Edit]_vars
StartsInside == edits = 0 => Violated(r) = {}
Listed == Violated(r) \subseteq Limits(r.op)
Bracketed == edits = 0 => \A l \in Limits(r.op) : \E q \in Near({r}, 2) : Violated(q) = {l}
\* false: an implementation that checks its arguments in turn may report any of several limits
OneAtATime == Cardinality(Violated(r)) <= 1
=============================================================================
