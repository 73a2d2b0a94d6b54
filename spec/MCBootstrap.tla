---------------------------- MODULE MCBootstrap -----------------------------
EXTENDS Bootstrap
CONSTANTS MaxN, V
MCInit == units \in UNION {[1..k -> 0..V] : k \in 1..MaxN} /\ drawn = <<>> /\ emitted = {}
MCSpec == MCInit /\ [][BNext]_bvars
(* a replicate mean lies between the extreme units *)
InRange == \A s \in emitted : s >= N * MinOf({units[i] : i \in 1..N}) /\ s <= N * MaxOf({units[i] : i \in 1..N})
(* identical units: no spread *)
NoSpread == (\A i \in 1..N : units[i] = units[1]) => emitted \subseteq {N * units[1]}
OnlySums == emitted \subseteq SumsOf(units, N)
=============================================================================
