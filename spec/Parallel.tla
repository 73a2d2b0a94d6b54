------------------------------ MODULE Parallel ------------------------------
(* Splitting work over processes and putting the answers together again.      *)
(* N rows are cut into P consecutive chunks whose sizes differ by at most one *)
(* (larger ones first); a task list is dealt out the same way.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Size(N, P, c) == N \div P + (IF c <= N % P THEN 1 ELSE 0)
Start(N, P, c) == (c - 1) * (N \div P) + (IF c - 1 <= N % P THEN c - 1 ELSE N % P)     \* rows before chunk c
Chunk(N, P, c) == [i \in 1..Size(N, P, c) |-> Start(N, P, c) + i]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Rows(N) == [i \in 1..N |-> i]
(* the Sobol' analysis' tasks for d factors: every index and confidence value *)
First(d) == {<<k, j, 0>> : k \in {"S1", "S1_conf", "ST", "ST_conf"}, j \in 1..d}
Second(d) == {<<k, j, l>> : k \in {"S2", "S2_conf"}, j \in 1..d, l \in 1..d}
Tasks(d, so) == First(d) \cup (IF so THEN {t \in Second(d) : t[2] < t[3]} ELSE {})
=============================================================================
