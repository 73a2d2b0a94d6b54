----------------------------- MODULE MorrisOpt ------------------------------
(* Selection of k trajectories out of a pool.  The spread of a selection is   *)
(* the root of the sum over its pairs of squared trajectory distances; a      *)
(* trajectory distance is the sum of the Euclidean distances of all pairs of  *)
(* their points.  Distances are bracketed in thousandths of a grid step, and  *)
(* spreads are compared squared, in two limbs (TLC integers are 32 bit).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
RECURSIVE Isqrt_(_, _, _)
Isqrt_(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN
                     IF m * m <= n THEN Isqrt_(n, m, hi) ELSE Isqrt_(n, lo, m)
Isqrt(n) == Isqrt_(n, 0, 46341)
RECURSIVE Sum_(_, _)
Sum_(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum_(f, k - 1)
Sq(a, b) == Sum_([j \in 1..Len(a) |-> (a[j] - b[j]) * (a[j] - b[j])], Len(a))
Dist(a, b) == Isqrt(Sq(a, b) * 1000000)             \* within 1 of 1000 * distance
TDist(s, t) == IF s = t THEN 0 ELSE
               Sum_([i \in 1..Len(s) |-> Sum_([h \in 1..Len(t) |-> Dist(s[i], t[h])], Len(t))], Len(s))
Slack(s) == Len(s) * Len(s)                          \* TDist is within Slack below the exact value
Pairs(S) == {pr \in S \X S : pr[1] < pr[2]}
(* numbers as <<hi, lo>> base 10^6 *)
Norm(h, l) == <<h + l \div 1000000, l % 1000000>>
SqBig(d) == LET a == d \div 1000 b == d % 1000 IN    \* (1000a+b)^2
              Norm(a * a + (2 * a * b) \div 1000, ((2 * a * b) % 1000) * 1000 + b * b)
RECURSIVE BigSum(_, _, _)
BigSum(dm, ps, add) == IF ps = {} THEN <<0, 0>> ELSE
   LET pr == CHOOSE x \in ps : TRUE r == BigSum(dm, ps \ {pr}, add)
       q == SqBig(dm[pr[1]][pr[2]] + (IF dm[pr[1]][pr[2]] = 0 THEN 0 ELSE add)) IN Norm(r[1] + q[1], r[2] + q[2])
BLe(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
KSubsets(n, k) == IF k = 2 THEN {{pr[1], pr[2]} : pr \in Pairs(1..n)} ELSE {S \in SUBSET (1..n) : Cardinality(S) = k}
(* in-order embedding of the chosen rows into the pool *)
RECURSIVE Embed(_, _, _, _)
Embed(pool, opt, i, from) == IF i > Len(opt) THEN <<>> ELSE
   LET c == {h \in from..Len(pool) : pool[h] = opt[i]} IN
   IF c = {} THEN <<0>> ELSE LET h == CHOOSE x \in c : \A y \in c : x <= y IN <<h>> \o Embed(pool, opt, i + 1, h + 1)
(* The local search.  For every i in 1..k-1 it starts with the trajectory and *)
(* its i farthest others that spread most, then adds one trajectory at a time *)
(* where the spread gains most; the best outcome over all i is the result.    *)
(* Distances are brackets, so choices closer than the brackets are all kept.  *)
Lo(dm, S) == BigSum(dm, Pairs(S), 0)
Hi(dm, S, sl) == BigSum(dm, Pairs(S), sl)
KSub(A, k) == {T \in SUBSET A : Cardinality(T) = k}
Near(dm, r, i, sl) ==        \* r with i others none of which is certainly nearer than one left out
   LET O == (1..Len(dm)) \ {r}
       In == {x \in O : Cardinality({y \in O \ {x} : dm[r][y] + sl >= dm[r][x]}) < i}
       Out == {x \in O : Cardinality({y \in O : dm[r][y] > dm[r][x] + sl}) >= i}
   IN {T \cup In \cup {r} : T \in KSub(O \ (In \cup Out), i - Cardinality(In))}
Starts(dm, i, sl) == LET N == [r \in 1..Len(dm) |-> Near(dm, r, i, sl)] IN
   {S \in UNION {N[r] : r \in 1..Len(dm)} : \A r \in 1..Len(dm) : \E U \in N[r] : BLe(Lo(dm, U), Hi(dm, S, sl))}
Extend(dm, S, sl) == LET X == {S \cup {y} : y \in (1..Len(dm)) \ S} IN {U \in X : \A W \in X : BLe(Lo(dm, W), Hi(dm, U, sl))}
RECURSIVE Grow(_, _, _, _)
Grow(dm, F, k, sl) == IF \A S \in F : Cardinality(S) = k THEN F ELSE Grow(dm, UNION {Extend(dm, S, sl) : S \in F}, k, sl)
LocalOk(dm, S, k, sl) == \A i \in 1..(k - 1) : \E U \in Grow(dm, Starts(dm, i, sl), k, sl) : BLe(Lo(dm, U), Hi(dm, S, sl))
=============================================================================
