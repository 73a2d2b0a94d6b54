----------------------------- MODULE MCParallel -----------------------------
(* A pool of W workers: chunks are taken in order by whichever worker is free,*)
(* finish in any order, and are collected in submission order.                *)
EXTENDS Parallel
CONSTANTS NMAX, PMAX
VARIABLES N, P, next, work, done, out, cur
vars == <<N, P, next, work, done, out, cur>>
Init == /\ N \in 1..NMAX /\ P \in 1..PMAX /\ next = 1 /\ work = [w \in 1..P |-> 0]
        /\ done = [c \in 1..P |-> FALSE] /\ out = <<>> /\ cur = 1
Take == /\ next <= P /\ \E w \in 1..P : work[w] = 0 /\ work' = [work EXCEPT ![w] = next]
        /\ next' = next + 1 /\ UNCHANGED <<N, P, done, out, cur>>
Finish == \E w \in 1..P : /\ work[w] # 0 /\ done' = [done EXCEPT ![work[w]] = TRUE] /\ work' = [work EXCEPT ![w] = 0]
                          /\ UNCHANGED <<N, P, next, out, cur>>
Collect == /\ cur <= P /\ done[cur] /\ out' = out \o Chunk(N, P, cur) /\ cur' = cur + 1 /\ UNCHANGED <<N, P, next, work, done>>
Next == Take \/ Finish \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Partition == Concat([c \in 1..P |-> Chunk(N, P, c)]) = Rows(N)
Balanced == \A c, e \in 1..P : Size(N, P, c) - Size(N, P, e) \in {-1, 0, 1}
InOrder == out = SubSeq(Rows(N), 1, Len(out))
Same == cur = P + 1 => out = Rows(N)
Ends == <>(cur = P + 1)
TaskCount == \A d \in 1..5 : /\ Cardinality(Tasks(d, FALSE)) = 4 * d
                             /\ Cardinality(Tasks(d, TRUE)) = 4 * d + d * (d - 1)
=============================================================================
