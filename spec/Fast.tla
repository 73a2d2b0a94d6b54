-------------------------------- MODULE Fast --------------------------------
(* Extended FAST: frequency plan, search curve and variance shares.           *)
EXTENDS Rat, FiniteSets
Admissible(N, M) == N > 4 * M * M
Omega0(N, M) == (N - 1) \div (2 * M)
MaxComp(N, M) == Omega0(N, M) \div (2 * M)
(* k-th complementary frequency (k = 1..D-1) *)
Comp(N, M, D, k) ==
  LET m == MaxComp(N, M) IN
  IF m >= D - 1 THEN IF D = 2 THEN 1 ELSE 1 + (((k - 1) * (m - 1)) \div (D - 2))
  ELSE ((k - 1) % m) + 1
(* frequency of parameter j in run i *)
Freq(N, M, D, i, j) == IF i = j THEN Omega0(N, M) ELSE Comp(N, M, D, IF j < i THEN j ELSE j - 1)
(* triangle wave of a phase in 1/T turns, value in 1/T units of [0, 1]        *)
T == 1000000
Tri(p) == LET q == (p + (T \div 4)) % T IN IF q <= T \div 2 THEN 2 * q ELSE 2 * (T - q)
Phase(N, w, k) == (((w * k) % N) * T) \div N
(* the two phases compatible with a first value *)
Phases(u0) == {(u0 \div 2) - (T \div 4), (T \div 4) + (T - u0) - (T - u0) \div 2}
Near(a, b, tol) == Abs(a - b) <= tol
OnCurve(N, w, us, tol) ==
  \E ph \in Phases(us[1]) : \A k \in 0..(N-1) : Near(Tri(Phase(N, w, k) + ph + T), us[k+1], tol)

(* ---- analysis: spectrum = function from frequencies to power ------------- *)
Half(N) == ((N + 1) \div 2) - 1                  \* usable frequencies 1..Half
Pow(sp, f) == LET g(i) == IF sp[i][1] = f THEN sp[i][2] ELSE 0 IN SumTo(g, Len(sp))
TotalP(sp, N) == LET g(f) == Pow(sp, f) IN SumTo(g, Half(N))
FirstP(sp, N, M) == LET g(p) == Pow(sp, p * Omega0(N, M)) IN SumTo(g, M)
LowP(sp, N, M) == LET g(f) == Pow(sp, f) IN SumTo(g, Omega0(N, M) \div 2)
S1Of(sp, N, M) == R(FirstP(sp, N, M), TotalP(sp, N))
STOf(sp, N, M) == RSub(<<1, 1>>, R(LowP(sp, N, M), TotalP(sp, N)))

(* ---- a model with exactly known harmonics -------------------------------- *)
(* term <<j, k, a>>: a cos(k pi u_j); term <<j, k, l, h, a>>: product of two.  *)
(* Powers in quarters of the squared amplitude.                               *)
TermLines(N, M, D, i, t) ==
  IF Len(t) = 3 THEN <<<<Freq(N, M, D, i, t[1]) * t[2], 4 * t[3] * t[3]>>>>
  ELSE LET f == Freq(N, M, D, i, t[1]) * t[2] g == Freq(N, M, D, i, t[3]) * t[4]
       IN <<<<f + g, t[5] * t[5]>>, <<Abs(f - g), t[5] * t[5]>>>>
RECURSIVE Lines(_, _, _, _, _)
Lines(N, M, D, i, ts) == IF ts = <<>> THEN <<>> ELSE TermLines(N, M, D, i, Head(ts)) \o Lines(N, M, D, i, Tail(ts))
Clean(sp, N) == /\ \A a \in 1..Len(sp) : sp[a][1] \in 1..Half(N)
                /\ \A a, b \in 1..Len(sp) : a # b => sp[a][1] # sp[b][1]
=============================================================================
