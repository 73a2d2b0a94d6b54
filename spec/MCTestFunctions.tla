--------------------------- MODULE MCTestFunctions ---------------------------
(* The analytic indices are the variance decomposition of the formula: a       *)
(* coordinate is added at a time; the variance of every subset's component is  *)
(* the product of its members' variances; the one-coordinate moments are       *)
(* integrated exactly (Boole's rule on each half of [0,1], exact to degree 5). *)
EXTENDS TestFunctions, TLC
CONSTANTS Halves, Pset, D      \* coefficients a in halves, whole curvatures p, number of coordinates
VARIABLES a, p, comp      \* comp: subset of coordinates -> variance of its component
vars == <<a, p, comp>>
Boole(f(_)) == LET half(lo) == RMul(<<1, 180>>, RSumSeq(<<RMul(<<7, 1>>, f(RAdd(lo, <<0, 1>>))), RMul(<<32, 1>>, f(RAdd(lo, <<1, 8>>))), RMul(<<12, 1>>, f(RAdd(lo, <<1, 4>>))),
                                                   RMul(<<32, 1>>, f(RAdd(lo, <<3, 8>>))), RMul(<<7, 1>>, f(RAdd(lo, <<1, 2>>)))>>))
               IN RAdd(half(Zero), half(<<1, 2>>))
MeanOf(ai, pi) == LET g(x) == GFactor(x, ai, Zero, pi) IN Boole(g)
VarOf(ai, pi) == LET g(x) == LET y == RSub(GFactor(x, ai, Zero, pi), One) IN RMul(y, y) IN Boole(g)
Init == a = <<>> /\ p = <<>> /\ comp = [s \in {{}} |-> One]
Add == /\ Len(a) < D
       /\ \E x \in {R(k, 2) : k \in Halves}, y \in {<<k, 1>> : k \in Pset} :
            /\ a' = Append(a, x) /\ p' = Append(p, y)
            /\ LET n == Len(a) + 1 v == VarOf(x, y) IN
               comp' = [s \in SUBSET (1..n) |-> IF n \in s THEN RMul(comp[s \ {n}], v) ELSE comp[s]]
Spec == Init /\ [][Add]_vars
RSumSet(S) == LET f[T \in SUBSET S] == IF T = {} THEN Zero ELSE LET s == CHOOSE s \in T : TRUE IN RAdd(comp[s], f[T \ {s}]) IN f[S]
Sub == SUBSET (1..Len(a))
v == GPartsOf(a, p)
UnitMean == \A i \in 1..Len(a) : MeanOf(a[i], p[i]) = One
PartIsVariance == \A i \in 1..Len(a) : GPart(a[i], p[i]) = VarOf(a[i], p[i])
TotalIsSum == Len(a) > 0 => GTotalOf(v) = RSumSet(Sub \ {{}})
FirstIsShare == \A i \in 1..Len(a) : GS(v, i) = RDiv(comp[{i}], GTotalOf(v))
TotalIndexIsShare == \A i \in 1..Len(a) : GST(v, i) = RDiv(RSumSet({s \in Sub : i \in s}), GTotalOf(v))
Ordered == \A i \in 1..Len(a) : RLe(GS(v, i), GST(v, i)) /\ RLe(GST(v, i), One)
\* the shift moves the argument round a circle: whole shifts change nothing
ShiftPeriodic == \A x \in {<<k, 8>> : k \in 0..8}, y \in {<<k, 1>> : k \in Pset} : GFactor(x, <<1, 1>>, Zero, y) = GFactor(x, <<1, 1>>, One, y)
\* false: first-order indices exhaust the variance
Additive == Len(a) > 0 => RSumSeq([i \in 1..Len(a) |-> GS(v, i)]) = One
=============================================================================
