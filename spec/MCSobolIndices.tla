--------------------------- MODULE MCSobolIndices ---------------------------
(* Every model f : {0,1}^2 -> 0..V evaluated on every pair of base points:    *)
(* the estimators satisfy the null-input, single-input and sign properties.   *)
EXTENDS SobolIndices
CONSTANTS N0, V
Pt == [1..2 -> 0..1]
VARIABLES f, base
mvars == <<ivars, f, base>>
MCInit == /\ grp = Identity(2) /\ so = TRUE /\ n = N0 /\ blk = 1 /\ pos = 0 /\ last = NoRow
          /\ store = <<>> /\ f \in [Pt -> 0..V] /\ base \in [1..N0 -> Pt \X Pt]
PointOf(row) == [j \in 1..2 |-> IF row.cells[j] = "A" THEN base[row.blk][1][j] ELSE base[row.blk][2][j]]
MCNext == /\ \E y \in 0..V : Consume(y) /\ y = f[PointOf(last')]
          /\ UNCHANGED <<f, base>>
MCSpec == MCInit /\ [][MCNext]_mvars
Done == blk = n + 1
Ignores(k) == \A p, q \in Pt : (\A j \in {1,2} \ {k} : p[j] = q[j]) => f[p] = f[q]
T == n * BlockLen
NullInput == Done => \A k \in 1..2 : Ignores(k) =>
    S1Of(store, k, T, Total(store))[1] = 0 /\ STOf(store, k)[1] = 0
STNonNegative == Done => \A k \in 1..2 : STOf(store, k)[1] >= 0
(* swapping exchange direction: if f depends on x_k alone, AB_k reproduces B *)
OnlyInput == Done => \A k \in 1..2 : Ignores(3 - k) =>
    /\ \A i \in 1..n : store[i].ab[k] = store[i].b /\ store[i].ab[3-k] = store[i].a
    /\ \A i \in 1..n : store[i].ba[k] = store[i].a /\ store[i].ba[3-k] = store[i].b
(* additive f: the exchanged outputs obey f(AB_j) + f(AB_k) = f(A) + f(B) *)
Additive == f[<<0,0>>] + f[<<1,1>>] = f[<<0,1>>] + f[<<1,0>>]
AdditiveRows == (Done /\ Additive) => \A i \in 1..n : store[i].ab[1] + store[i].ab[2] = store[i].a + store[i].b
=============================================================================
