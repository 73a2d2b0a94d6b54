------------------------------- MODULE MCFast -------------------------------
(* The frequency plan of every admissible request, emitted run by run.        *)
EXTENDS Fast
CONSTANTS NMAX, MMAX, DMAX
VARIABLES N, M, D, i, j, plan
vars == <<N, M, D, i, j, plan>>
Init == N \in 1..NMAX /\ M \in 1..MMAX /\ D \in 2..DMAX /\ i = 0 /\ j = 0 /\ plan = <<>>
Reject == i = 0 /\ ~Admissible(N, M) /\ i' = -1 /\ UNCHANGED <<N, M, D, j, plan>>
StartRun == i = 0 /\ Admissible(N, M) /\ i' = 1 /\ j' = 0 /\ UNCHANGED <<N, M, D, plan>>
Column == i \in 1..D /\ j < D /\ j' = j + 1 /\ plan' = Append(plan, Freq(N, M, D, i, j + 1)) /\ UNCHANGED <<N, M, D, i>>
NextRun == i \in 1..D /\ j = D /\ i' = i + 1 /\ j' = 0 /\ plan' = <<>> /\ UNCHANGED <<N, M, D>>
Next == Reject \/ StartRun \/ Column \/ NextRun
Spec == Init /\ [][Next]_vars
Resolvable == i \in 1..D => M * Omega0(N, M) <= Half(N)
Separated == i \in 1..D /\ j >= 1 =>
   \/ (j = i /\ plan[j] = Omega0(N, M))
   \/ (j # i /\ plan[j] >= 1 /\ 2 * M * plan[j] <= Omega0(N, M))
Spread == (i = 1 /\ j = D /\ MaxComp(N, M) >= D - 1) => \A a, b \in 2..D : a < b => plan[a] < plan[b]
Used == (i = 1 /\ j = D /\ MaxComp(N, M) < D - 1) => {plan[a] : a \in 2..D} = 1..MaxComp(N, M)
Rejected == i = -1 => plan = <<>>
=============================================================================
