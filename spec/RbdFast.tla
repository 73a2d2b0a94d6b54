------------------------------ MODULE RbdFast -------------------------------
(* RBD-FAST: triangle re-ordering of the outputs by one input, share of the   *)
(* first M harmonics, bias correction.                                        *)
EXTENDS Rat, FiniteSets
(* rows sorted by rank: 1st, 3rd, 5th ... ascending, then the rest descending *)
RowOfRank(rk, r) == CHOOSE i \in 1..Len(rk) : rk[i] = r
Up(n) == (n + 1) \div 2
RankAt(n, k) == IF k <= Up(n) THEN 2 * k - 1 ELSE 2 * (n - k + 1)
Order(rk) == [k \in 1..Len(rk) |-> RowOfRank(rk, RankAt(Len(rk), k))]
(* one-sided power: a cosine of amplitude A carries A^2/2, at Nyquist A^2     *)
Half(n) == n \div 2
Pow(sp, n, f) == LET g(i) == IF sp[i][1] = f THEN (IF 2 * f = n THEN 2 ELSE 1) * sp[i][2] ELSE 0 IN SumTo(g, Len(sp))
Total(sp, n) == LET g(f) == Pow(sp, n, f) IN SumTo(g, Half(n))
First(sp, n, M) == LET g(f) == Pow(sp, n, f) IN SumTo(g, M)
Raw(sp, n, M) == R(First(sp, n, M), Total(sp, n))
Unskew(s, n, M) == LET lam == R(2 * M, n) IN RSub(s, RMul(RDiv(lam, RSub(<<1, 1>>, lam)), RSub(<<1, 1>>, s)))
S1(sp, n, M) == Unskew(Raw(sp, n, M), n, M)
=============================================================================
