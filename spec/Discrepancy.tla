----------------------------- MODULE Discrepancy -----------------------------
(* L2 discrepancies of n points <<a/q, b/r>> of the unit square, exactly.     *)
(* Per coordinate every factor is a rational with denominator den*q*q; the    *)
(* values for L2-star are squared.                                            *)
EXTENDS Rat, FiniteSets
(* twice the offset from the centre, times q *)
Z2(a, q) == Abs(2 * a - q)
(* single-point and pair factors as integers over (Den * q^2)                 *)
One1(m, a, q) ==
  CASE m = "CD" -> 8 * q * q + 2 * Z2(a, q) * q - Z2(a, q) * Z2(a, q)          \* /8q^2
    [] m = "MD" -> 80 * q * q - 6 * Z2(a, q) * q - 3 * Z2(a, q) * Z2(a, q)      \* /48q^2
    [] m = "L2-star" -> q * q - a * a                                           \* /q^2
    [] OTHER -> 0
Den1(m) == CASE m = "CD" -> 8 [] m = "MD" -> 48 [] OTHER -> 1
Two(m, a, b, q) == LET d == Abs(a - b) IN
  CASE m = "WD" -> 3 * q * q - 2 * d * (q - d)                                  \* /2q^2
    [] m = "CD" -> 4 * q * q + q * Z2(a, q) + q * Z2(b, q) - 2 * q * d           \* /4q^2
    [] m = "MD" -> 15 * q * q - q * Z2(a, q) - q * Z2(b, q) - 6 * q * d + 4 * d * d   \* /8q^2
    [] m = "L2-star" -> q * q - q * (IF a > b THEN a ELSE b)                     \* /q^2
Den2(m) == CASE m = "WD" -> 2 [] m = "CD" -> 4 [] m = "MD" -> 8 [] OTHER -> 1
Const(m) == CASE m = "WD" -> <<-16, 9>> [] m = "CD" -> <<169, 144>> [] m = "MD" -> <<361, 144>> [] m = "L2-star" -> <<1, 9>>
Lead(m) == IF m = "L2-star" THEN <<1, 2>> ELSE <<2, 1>>     \* 2^(1-s) or 2
Disc(m, xs, ys, q, r) ==
  LET n == Len(xs)
      s1(i) == One1(m, xs[i], q) * One1(m, ys[i], r)
      s2(i) == LET g(j) == Two(m, xs[i], xs[j], q) * Two(m, ys[i], ys[j], r) IN SumTo(g, n)
      t1 == RDiv(RDiv(<<SumTo(s1, n), 1>>, <<Den1(m) * q * q, 1>>), <<Den1(m) * r * r * n, 1>>)
      t2 == RDiv(RDiv(<<SumTo(s2, n), 1>>, <<Den2(m) * q * q, 1>>), <<Den2(m) * r * r * n * n, 1>>)
  IN RAdd(RSub(Const(m), RMul(Lead(m), t1)), t2)
Methods == {"WD", "CD", "MD", "L2-star"}
=============================================================================
