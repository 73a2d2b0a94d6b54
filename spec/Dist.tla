-------------------------------- MODULE Dist --------------------------------
(* Parameter distributions: which specifications are legal, their support,    *)
(* and exact landmark pairs (probability level, quantile).  A level is        *)
(*   [k |-> "rat", v]         the rational v                                  *)
(*   [k |-> "phi", z]         Phi(z)                                          *)
(*   [k |-> "trunc", z, a, b] (Phi(z) - Phi(a)) / (Phi(b) - Phi(a))           *)
(*   [k |-> "weib", t]        1 - exp(-t)                                     *)
(* and the quantile is the rational x, or exp(x) when ln is TRUE.             *)
EXTENDS Rat, FiniteSets
Zero == <<0, 1>>
One == <<1, 1>>
Kinds == {"unif", "triang", "norm", "truncnorm", "lognorm", "logunif", "weibull"}
Tri(b) == IF Len(b) = 3 THEN b ELSE <<Zero, b[1], b[2]>>
Valid(d, b) ==
  CASE d = "unif" -> Len(b) >= 2 /\ RLt(b[1], b[2])
    [] d = "logunif" -> Len(b) >= 2 /\ RLt(Zero, b[1]) /\ RLt(b[1], b[2])
    [] d = "triang" -> Len(b) \in {2, 3} /\ RLt(Tri(b)[1], Tri(b)[2]) /\ RLe(Zero, Tri(b)[3]) /\ RLt(Tri(b)[3], One)
    [] d \in {"norm", "lognorm"} -> Len(b) >= 2 /\ RLt(Zero, b[2])
    [] d = "truncnorm" -> Len(b) = 4 /\ RLt(b[1], b[2]) /\ RLt(Zero, b[4])
    [] d = "weibull" -> Len(b) \in {2, 3} /\ RLt(Zero, b[1]) /\ RLt(Zero, b[2])
    [] OTHER -> FALSE
RECURSIVE RPow(_, _)
RPow(q, k) == IF k = 0 THEN One ELSE RMul(q, RPow(q, k - 1))
L(lv, x, ln) == [u |-> lv, x |-> x, ln |-> ln]
Rt(v) == [k |-> "rat", v |-> v]
(* t-parametrised landmarks, t in 0..4 (t/4) or z = (t - 2) * 3/4 etc. *)
Mark(d, b, t) ==
  LET q == R(t, 4) z == R(3 * (t - 2), 4) IN
  CASE d = "unif" -> L(Rt(q), RAdd(b[1], RMul(q, RSub(b[2], b[1]))), FALSE)
    [] d = "triang" ->
         LET lo == Tri(b)[1] w == RSub(Tri(b)[2], lo) c == Tri(b)[3] s == R(t, 2) s2 == R(4 - t, 2) d1 == RSub(One, c) IN
         IF t <= 2 THEN L(Rt(RMul(c, RMul(s, s))), RAdd(lo, RMul(w, RMul(c, s))), FALSE)
         ELSE L(Rt(RSub(One, RMul(d1, RMul(s2, s2)))), RAdd(lo, RMul(w, RSub(One, RMul(d1, s2)))), FALSE)
    [] d = "norm" -> L([k |-> "phi", z |-> z], RAdd(b[1], RMul(b[2], z)), FALSE)
    [] d = "lognorm" -> L([k |-> "phi", z |-> z], RAdd(b[1], RMul(b[2], z)), TRUE)
    [] d = "truncnorm" ->
         LET x == RAdd(b[1], RMul(q, RSub(b[2], b[1]))) zz(v) == RDiv(RSub(v, b[3]), b[4]) IN
         L([k |-> "trunc", z |-> zz(x), a |-> zz(b[1]), b |-> zz(b[2])], x, FALSE)
    [] d = "weibull" ->   (* shape p/r: level 1 - exp(-q^p) has quantile scale * q^r + loc *)
         LET loc == IF Len(b) = 3 THEN b[3] ELSE Zero IN
         L([k |-> "weib", t |-> RPow(q, b[1][1])], RAdd(loc, RMul(b[2], RPow(q, b[1][2]))), FALSE)
(* log-uniform with upper = lower * r^m: level j/m has quantile lower * r^j   *)
LogMarks(lo, r, m) == [j \in 1..(m+1) |-> L(Rt(R(j - 1, m)), RMul(lo, RPow(r, j - 1)), FALSE)]
Below(d, b, x, ln) ==   (* x is not below the support *)
  CASE d \in {"unif", "truncnorm", "logunif"} -> RLe(b[1], x)
    [] d = "triang" -> RLe(Tri(b)[1], x)
    [] d = "weibull" -> RLe(IF Len(b) = 3 THEN b[3] ELSE Zero, x)
    [] OTHER -> TRUE
Above(d, b, x, ln) ==
  CASE d \in {"unif", "truncnorm", "logunif"} -> RLe(x, b[2])
    [] d = "triang" -> RLe(x, Tri(b)[2])
    [] OTHER -> TRUE
InSupport(d, b, m) == Below(d, b, m.x, m.ln) /\ Above(d, b, m.x, m.ln)
=============================================================================
