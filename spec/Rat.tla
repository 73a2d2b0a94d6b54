-------------------------------- MODULE Rat ---------------------------------
(* Exact rationals <<num, den>>, den > 0 (den = 0 marks an undefined value).  *)
(* TLC integers are 32 bit and overflow is an error, so results are reduced.  *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Reduce(q) == IF q[2] = 0 THEN <<IF q[1] = 0 THEN 0 ELSE IF q[1] > 0 THEN 1 ELSE -1, 0>>
             ELSE LET g == GCD(Abs(q[1]), Abs(q[2]))
                      s == IF q[2] < 0 THEN -1 ELSE 1
                  IN IF q[1] = 0 THEN <<0, 1>> ELSE <<s * (q[1] \div g), s * (q[2] \div g)>>
R(n, d) == Reduce(<<n, d>>)
RAdd(p, q) == LET g == GCD(p[2], q[2]) IN Reduce(<<p[1] * (q[2] \div g) + q[1] * (p[2] \div g), (p[2] \div g) * q[2]>>)
RNeg(p) == <<-p[1], p[2]>>
RSub(p, q) == RAdd(p, RNeg(q))
RMul(p, q) == LET a == Reduce(<<p[1], q[2]>>) b == Reduce(<<q[1], p[2]>>) IN <<a[1] * b[1], a[2] * b[2]>>
RDiv(p, q) == IF q[1] = 0 THEN <<p[1], 0>> ELSE RMul(p, IF q[1] < 0 THEN <<-q[2], -q[1]>> ELSE <<q[2], q[1]>>)
RLe(p, q) == p[1] * q[2] <= q[1] * p[2]
RLt(p, q) == p[1] * q[2] < q[1] * p[2]
RAbs(p) == <<Abs(p[1]), p[2]>>
(* integer sums over sequences / functions *)
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
SumSeq(s) == LET f(i) == s[i] IN SumTo(f, Len(s))
RECURSIVE RSumTo(_, _)
RSumTo(f(_), k) == IF k = 0 THEN <<0, 1>> ELSE RAdd(f(k), RSumTo(f, k - 1))
RSumSeq(s) == LET f(i) == s[i] IN RSumTo(f, Len(s))
(* population variance of an integer sequence, times Len^2 *)
VarNum(s) == LET f(i) == s[i] g(i) == s[i] * s[i] m == SumTo(f, Len(s)) IN Len(s) * SumTo(g, Len(s)) - m * m
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
