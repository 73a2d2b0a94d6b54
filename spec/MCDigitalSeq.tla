--------------------------- MODULE MCDigitalSeq -----------------------------
(* The Gray-code register of one dimension stepping through the sequence.      *)
EXTENDS DigitalSeq, JoeKuo
CONSTANTS L, DIMS, RULE
VARIABLES d, n, X
vars == <<d, n, X>>
VT == TLCEval([i \in 1..DIMS |-> Dirs(Table[i], L)])
Init == d \in 1..DIMS /\ n = 0 /\ X = 0
Advance == /\ n < Pow2(L) - 1
           /\ X' = (IF RULE = "next" THEN X ^^ VT[d][IF Lowest0(n+1) > L THEN L ELSE Lowest0(n+1)]
                    ELSE IF RULE = "binary" THEN XorBits(VT[d], n+1, 2)
                    ELSE IF RULE = "stuck" THEN X ^^ VT[d][IF Lowest0(n) > 2 THEN 2 ELSE Lowest0(n)]
                    ELSE Step(VT[d], X, n))
           /\ n' = n + 1 /\ d' = d
Spec == Init /\ [][Advance]_vars

(* the register holds the closed form, so a run can be entered at any point (skipping) *)
Closed == X = Point(VT[d], n)
(* every aligned run of 2^m points has one point in each interval of length 2^-m *)
Equi == \A m \in 0..L : (n+1) % Pow2(m) = 0 =>
           {Point(VT[d], k) \div Pow2(L-m) : k \in (n + 1 - Pow2(m))..n} = 0..(Pow2(m)-1)
(* the first two dimensions jointly: one point in every elementary interval of area 2^-m *)
Net2 == d = 2 => \A m \in 1..L : (n+1) % Pow2(m) = 0 =>
           \A p \in 0..m : Cardinality({<<Point(VT[1], k) \div Pow2(L-p), Point(VT[2], k) \div Pow2(L-m+p)>> :
                                        k \in (n + 1 - Pow2(m))..n}) = Pow2(m)
(* no dimension repeats another on a whole period *)
Distinct == n = Pow2(L) - 1 => \A e \in 1..DIMS : e # d => \E k \in 0..n : Point(VT[e], k) # Point(VT[d], k)

(* table: m_j odd and below 2^j, for the given and the extended numbers *)
TableOK == \A i \in 1..Len(Table) : LET ms == Ms(Table[i], 12) IN \A j \in 1..12 : ms[j] % 2 = 1 /\ ms[j] < Pow2(j)
(* the polynomials are primitive: x has order 2^s - 1 modulo x^s + a_1 x^(s-1) + ... + 1 *)
TimesX(r, e) == LET t == 2 * r IN IF t >= Pow2(e.s) THEN (t - Pow2(e.s)) ^^ (2 * e.a + 1) ELSE t
RECURSIVE OrdX(_,_,_)
OrdX(r, e, k) == IF r = 1 THEN k ELSE IF k > Pow2(e.s) THEN 0 ELSE OrdX(TimesX(r, e), e, k+1)
Primitive == \A i \in 3..Len(Table) : OrdX(TimesX(1, Table[i]), Table[i], 1) = Pow2(Table[i].s) - 1
Distinct2 == \A i, j \in 1..Len(Table) : i # j => <<Table[i].s, Table[i].a>> # <<Table[j].s, Table[j].a>>
TableInv == (n = 0 /\ d = 1) => TableOK /\ Primitive /\ Distinct2
=============================================================================
