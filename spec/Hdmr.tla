-------------------------------- MODULE Hdmr --------------------------------
(* High-dimensional model representation.  Component functions are indexed by *)
(* the parameter subsets of size 1..order in combination order.  On a full    *)
(* factorial grid (independent inputs) the component functions are the exact  *)
(* functional ANOVA terms: f_u is what E[Y | x_u] adds to its sub-terms.      *)
(* A case: lev = number of levels per parameter, y = outputs over the grid in *)
(* mixed-radix order (last parameter fastest), order.                         *)
EXTENDS Frames, Rat
SubsetOf(t) == {t[k] : k \in 1..Len(t)}
Prod(lev, u) == LET RECURSIVE go(_) go(S) == IF S = {} THEN 1 ELSE LET i == CHOOSE i \in S : TRUE IN lev[i] * go(S \ {i}) IN go(u)
N(lev) == Prod(lev, 1..Len(lev))
Stride(lev, i) == Prod(lev, (i + 1)..Len(lev))
Level(lev, p, i) == ((p - 1) \div Stride(lev, i)) % lev[i]          \* level of parameter i at grid point p
Points(lev) == 1..N(lev)
Agree(lev, u, p, q) == \A i \in u : Level(lev, p, i) = Level(lev, q, i)
SumOver(y, S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN 0 ELSE LET q == CHOOSE q \in T : TRUE IN y[q] + go(T \ {q}) IN go(S)
(* n * E[Y | x_u at p] *)
NCond(lev, y, u, p) == SumOver(y, {q \in Points(lev) : Agree(lev, u, p, q)}) * Prod(lev, u)
Sign(k) == IF k % 2 = 0 THEN 1 ELSE -1
(* representatives: points with level 0 outside u *)
Reps(lev, u) == {p \in Points(lev) : \A i \in (1..Len(lev)) \ u : Level(lev, p, i) = 0}
Rep(lev, u, p) == CHOOSE q \in Reps(lev, u) : Agree(lev, u, p, q)
(* tables of n*E[Y|x_u] and n*f_u over the representatives of u *)
CondTab(lev, y, u) == [p \in Reps(lev, u) |-> NCond(lev, y, u, p)]
SumSet(S, f(_)) == LET RECURSIVE go(_) go(T) == IF T = {} THEN 0 ELSE LET q == CHOOSE q \in T : TRUE IN f(q) + go(T \ {q}) IN go(S)
NF(lev, cond, u, p) == LET f(v) == Sign(Cardinality(u) - Cardinality(v)) * cond[v][Rep(lev, v, p)] IN SumSet(SUBSET u, f)
NVar(lev, y) == LET n == N(lev) sq(p) == y[p] * y[p] s == SumOver(y, Points(lev)) IN n * SumSet(Points(lev), sq) - s * s      \* n^2 Var Y

Anova(c) ==
  LET D == Len(c.lev) n == N(c.lev)
      terms == TermIdx(D, c.order)
      cond == TLCEval([u \in {v \in SUBSET (1..D) : Cardinality(v) <= c.order} |-> TLCEval(CondTab(c.lev, c.y, u))])
      f == TLCEval([t \in 1..Len(terms) |-> TLCEval([p \in Reps(c.lev, SubsetOf(terms[t])) |-> NF(c.lev, cond, SubsetOf(terms[t]), p)])])
      nv == NVar(c.lev, c.y)
      S == TLCEval([t \in 1..Len(terms) |-> LET u == SubsetOf(terms[t]) g(p) == f[t][p] * f[t][p] IN R(SumSet(Reps(c.lev, u), g), Prod(c.lev, u) * nv)])
      ST == [i \in 1..D |-> LET has(t) == i \in SubsetOf(terms[t]) sel == SelectSeq([t \in 1..Len(terms) |-> t], has) IN RSumSeq([k \in 1..Len(sel) |-> S[sel[k]]])]
      emu == [p \in Points(c.lev) |-> LET g(t) == f[t][Rep(c.lev, SubsetOf(terms[t]), p)] IN SumOver(c.y, Points(c.lev)) + SumSet(1..Len(terms), g)]
  IN [terms |-> terms, S |-> S, ST |-> ST, sum |-> RSumSeq(S), emu |-> emu, n |-> n]
=============================================================================
