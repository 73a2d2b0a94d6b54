----------------------------- MODULE DigitalSeq -----------------------------
(* The Sobol' digital sequence in base 2 with L binary digits.  A dimension is *)
(* an entry e = [s, a, m]: degree of its primitive polynomial, the polynomial's *)
(* inner coefficients as a bit string, and its initial numbers m_1..m_s; s = 0  *)
(* stands for the first dimension (all m_j = 1).  Points are integers X, the    *)
(* value being X / 2^L.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)
Bit(x, k) == (x \div Pow2(k)) % 2

(* textbook recurrence m_j = 2 a_1 m_(j-1) + ... + 2^(s-1) a_(s-1) m_(j-s+1)    *)
(* + 2^s m_(j-s) + m_(j-s), with + the exclusive or                             *)
RECURSIVE FoldA(_,_,_,_)
FoldA(e, ms, j, k) ==
  IF k = e.s THEN (Pow2(e.s) * ms[j - e.s]) ^^ ms[j - e.s]
  ELSE (Bit(e.a, e.s - 1 - k) * Pow2(k) * ms[j-k]) ^^ FoldA(e, ms, j, k+1)
RECURSIVE Extend(_,_,_)
Extend(e, ms, L) ==
  IF Len(ms) >= L THEN ms
  ELSE Extend(e, Append(ms, IF e.s = 0 THEN 1 ELSE FoldA(e, ms, Len(ms)+1, 1)), L)
Ms(e, L) == LET t == Extend(e, e.m, L) IN [j \in 1..L |-> t[j]]
Dirs(e, L) == LET ms == TLCEval(Ms(e, L)) IN TLCEval([j \in 1..L |-> ms[j] * Pow2(L - j)])

Gray(n) == n ^^ (n \div 2)
RECURSIVE XorBits(_,_,_)
XorBits(V, g, j) == IF g = 0 THEN 0 ELSE (IF g % 2 = 1 THEN V[j] ELSE 0) ^^ XorBits(V, g \div 2, j+1)
(* closed form of point n *)
Point(V, n) == XorBits(V, Gray(n), 1)
(* position (from 1) of the lowest zero bit of n: the direction number of step n -> n+1 *)
RECURSIVE Lowest0(_)
Lowest0(n) == IF n % 2 = 0 THEN 1 ELSE 1 + Lowest0(n \div 2)
Step(V, X, n) == X ^^ V[Lowest0(n)]

(* a power of two that counts as a balanced size (1 does not) *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Balanced(n) == n >= 2 /\ Pow2(Log2(n)) = n

(* default skip of the legacy sampler: a power of two >= N, at least 16 *)
DefaultSkip(N) == LET p == IF Pow2(Log2(N)) = N THEN N ELSE Pow2(Log2(N) + 1) IN IF p < 16 THEN 16 ELSE p

(* a request is warned about when its points do not form balanced blocks *)
Warns(sampler, N, skip, given) ==
  IF sampler = "saltelli"
  THEN ~Balanced(N) \/ (given /\ (skip = 0 \/ ~Balanced(skip) \/ Log2(N) > Log2(skip)))
  ELSE ~Balanced(N) \/ (skip > 0 /\ (~Balanced(skip) \/ Log2(N) > Log2(skip)))
=============================================================================
