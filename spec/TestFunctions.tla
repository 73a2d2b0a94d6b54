---------------------------- MODULE TestFunctions ----------------------------
(* The bundled models' published formulas, exactly, at arguments where they are *)
(* rational (or polynomials in pi/2 with integer coefficients), and the analytic *)
(* variance decomposition of the Sobol-G function.                              *)
EXTENDS Rat, FiniteSets
One == <<1, 1>>
Zero == <<0, 1>>
RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN One ELSE RMul(x, RPow(x, k - 1))
RMulSeq(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN One ELSE RMul(f[k-1], s[k]) IN f[Len(s)]

\* --- sin and cos at whole multiples of pi/6 (k) in halves; sines of thirds are irrational and never asked for
Sin6(k) == LET m == k % 12 IN CASE m \in {0, 6} -> Zero [] m \in {1, 5} -> <<1, 2>> [] m = 3 -> One [] m \in {7, 11} -> <<-1, 2>> [] m = 9 -> <<-1, 1>>
\* sin^2 at multiples of pi/12 (k): rational at multiples of pi/6 and of pi/4
SinSq12(k) == LET m == k % 12 IN CASE m = 0 -> Zero [] m \in {2, 10} -> <<1, 4>> [] m \in {3, 9} -> <<1, 2>> [] m \in {4, 8} -> <<3, 4>> [] m = 6 -> One
\* x1 = i pi/6, x2 = j pi/12, x3 rational
Ishigami(i, j, x3, A, B) == RAdd(RAdd(Sin6(i), RMul(A, SinSq12(j))), RMul(B, RMul(RPow(x3, 4), Sin6(i))))

Linear(x, coef) == RSumSeq([i \in 1..Len(x) |-> RMul(coef[i], x[i])])
Linear1(x) == Linear(x, [i \in 1..Len(x) |-> One])
Linear2(x) == Linear(x, <<<<5, 1>>, <<4, 1>>, <<3, 1>>, <<2, 1>>, <<1, 1>>>>)

\* --- Oakley and O'Hagan: a1.x + a2.sin x + a3.cos x + x'Mx at x = k pi/2, as <<c0, c1, c2>> with value c0 + c1 h + c2 h^2, h = pi/2
Sin4(k) == LET m == k % 4 IN IF m = 1 THEN 1 ELSE IF m = 3 THEN -1 ELSE 0
Cos4(k) == Sin4(k + 1)
Oakley(k, a1, a2, a3, M) ==
  LET D == Len(k)
      lin(i) == a1[i] * k[i]
      tri(i) == a2[i] * Sin4(k[i]) + a3[i] * Cos4(k[i])
      row(i) == LET t(j) == M[i][j] * k[j] IN k[i] * SumTo(t, D)
  IN <<SumTo(tri, D), SumTo(lin, D), SumTo(row, D)>>

\* --- Sobol-G with shift d and curvature p (p a whole or half number)
IsSq(n) == \E r \in 0..n : r * r = n
Sqrt(n) == CHOOSE r \in 0..n : r * r = n
RPowHalf(t, p) == IF p[2] = 1 THEN RPow(t, p[1]) ELSE RPow(<<Sqrt(t[1]), Sqrt(t[2])>>, p[1])
Frac(q) == <<q[1] % q[2], q[2]>>
GTent(x, d) == LET f == Frac(RAdd(x, d)) IN RAbs(RSub(RMul(<<2, 1>>, Reduce(f)), One))
GFactor(x, a, d, p) == RDiv(RAdd(RMul(RAdd(One, p), RPowHalf(GTent(x, d), p)), a), RAdd(One, a))
GInDomain(x) == RLe(Zero, x) /\ RLe(x, One)
GDefined(x, d, p) == (\A i \in 1..Len(x) : GInDomain(x[i])) /\ (\A i \in 1..Len(d) : GInDomain(d[i])) /\ (\A i \in 1..Len(p) : RLt(Zero, p[i]))
\* --- its variances
GPart(a, p) == RDiv(RMul(p, p), RMul(RAdd(One, RMul(<<2, 1>>, p)), RPow(RAdd(One, a), 2)))
GPartsOf(a, p) == [i \in 1..Len(a) |-> GPart(a[i], p[i])]
GTotalOf(v) == RSub(RMulSeq([i \in 1..Len(v) |-> RAdd(One, v[i])]), One)
GS(v, i) == RDiv(v[i], GTotalOf(v))
GST(v, i) == RDiv(RMul(v[i], RMulSeq([j \in 1..Len(v) |-> IF j = i THEN One ELSE RAdd(One, v[j])])), GTotalOf(v))

\* --- Lake problem: one step; utility; inertia
LakeStep(X, a, q, b, e) == LET Xq == RPow(X, q) IN RAdd(RSub(RAdd(RAdd(X, a), RDiv(Xq, RAdd(One, Xq))), RMul(b, X)), e)
LakeRun(a, q, b, e, n) == LET f[t \in 0..n] == IF t = 0 THEN <<Zero>> ELSE Append(f[t-1], LakeStep(f[t-1][t], a, q, b, e)) IN Tail(f[n])
LakeUtility(al, a, de, n) == RMul(RMul(al, a), RSumSeq([t \in 1..n |-> RPow(de, t - 1)]))
LakeInertia(a, n) == IF RLt(a, <<1, 50>>) THEN R(1, n) ELSE Zero
=============================================================================
