----------------------------- MODULE FiniteDiff ------------------------------
(* DGSM: one-at-a-time finite difference blocks and the measures from them.   *)
EXTENDS Rat
Clamp(x, lo, hi) == IF RLt(hi, x) THEN hi ELSE IF RLt(x, lo) THEN lo ELSE x
Step(x, d, lo, hi) == Clamp(RAdd(x, RMul(x, d)), lo, hi)
(* row k (0..D) of the block of base point x; limits lim[j] = <<lo, hi>>      *)
Row(x, k, d, lim) == [j \in 1..Len(x) |-> IF j = k THEN Step(x[j], d, lim[j][1], lim[j][2]) ELSE x[j]]
(* measures: rows of X (rationals) and outputs y (integers), N blocks of D+1  *)
Quot(X, y, D, b, j) == LET a == (b - 1) * (D + 1) + 1 IN
   RDiv(<<y[a + j] - y[a], 1>>, RSub(X[a + j][j], X[a][j]))
Sq(X, y, D, N, j) == [b \in 1..N |-> LET q == Quot(X, y, D, b, j) IN RMul(q, q)]
Mean(s) == RDiv(RSumSeq(s), <<Len(s), 1>>)
PVar(s) == LET m == Mean(s) IN Mean([i \in 1..Len(s) |-> LET e == RSub(s[i], m) IN RMul(e, e)])
Base(y, D, N) == [b \in 1..N |-> <<y[(b - 1) * (D + 1) + 1], 1>>]
(* dgsm times pi squared *)
DgsmPi2(X, y, D, N, j, range) == RDiv(RMul(Mean(Sq(X, y, D, N, j)), RMul(range, range)), PVar(Base(y, D, N)))
=============================================================================
