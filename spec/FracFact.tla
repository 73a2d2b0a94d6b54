----------------------------- MODULE FracFact -------------------------------
(* Fractional factorial fold-over designs and their effects.                  *)
EXTENDS Rat, FiniteSets, Bitwise
RECURSIVE Pow2Above(_, _)
Pow2Above(d, k) == IF k >= d THEN k ELSE Pow2Above(d, 2 * k)
KOf(D) == Pow2Above(D, 1)
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE (x % 2) + Bits(x \div 2)
(* Sylvester's construction, entries 1 (high) / 0 (low)                       *)
Syl(i, j) == 1 - (Bits((i - 1) & (j - 1)) % 2)
Design(K) == [r \in 1..(2*K) |-> [j \in 1..K |-> IF r <= K THEN Syl(r, j) ELSE 1 - Syl(r - K, j)]]
Sgn(x) == 2 * x - 1
Shape(L, K) == Len(L) = 2 * K /\ \A r \in 1..Len(L) : Len(L[r]) = K
TwoLevel(L) == \A r \in 1..Len(L) : \A j \in 1..Len(L[r]) : L[r][j] \in {0, 1}
Balanced(L, K) == \A j \in 1..K : LET f(r) == L[r][j] IN SumTo(f, 2 * K) = K
Orthogonal(L, K) == \A i, j \in 1..K : i < j => LET f(r) == Sgn(L[r][i]) * Sgn(L[r][j]) IN SumTo(f, 2 * K) = 0
FoldOver(L, K) == \A r \in 1..K : \A j \in 1..K : L[r][j] = 1 - L[r + K][j]
(* effects of the outputs y: mean(high) - mean(low), halved                   *)
ME(L, K, y, j) == LET hi(r) == L[r][j] * y[r] lo(r) == (1 - L[r][j]) * y[r] IN
   RMul(<<1, 2>>, RSub(R(SumTo(hi, 2 * K), K), R(SumTo(lo, 2 * K), K)))
IE(L, K, y, i, j) == LET f(r) == Sgn(L[r][i]) * Sgn(L[r][j]) * y[r] IN R(SumTo(f, 2 * K), 2 * K)
=============================================================================
