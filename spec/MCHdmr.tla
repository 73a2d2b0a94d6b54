------------------------------- MODULE MCHdmr -------------------------------
(* The accounting of component terms: terms are visited in order, each adding *)
(* its share to the total and to the total index of the parameters it names.  *)
EXTENDS Hdmr
CONSTANTS D, LEV, YMAX, VARIANT
VARIABLES y, a, at, ST, sum
vars == <<y, a, at, ST, sum>>
Lev == [i \in 1..D |-> LEV]
NPts == N(Lev)
Init == /\ y \in [1..NPts -> 0..YMAX] /\ NVar(Lev, y) > 0
        /\ a = Anova([lev |-> Lev, y |-> y, order |-> D]) /\ at = 1 /\ ST = [i \in 1..D |-> <<0, 1>>] /\ sum = <<0, 1>>
Counts(i, t) == IF VARIANT = "design" THEN i \in SubsetOf(t) ELSE IF VARIANT = "leading-only" THEN t[1] = i ELSE (* "pairs-only" *) i \in SubsetOf(t) /\ Len(t) <= 2
Add == /\ at <= Len(a.terms)
       /\ ST' = [i \in 1..D |-> IF Counts(i, a.terms[at]) THEN RAdd(ST[i], a.S[at]) ELSE ST[i]]
       /\ sum' = RAdd(sum, a.S[at]) /\ at' = at + 1 /\ UNCHANGED <<y, a>>
Spec == Init /\ [][Add]_vars
Done == at > Len(a.terms)
Bin(n, k) == CASE k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2 [] OTHER -> (n * (n - 1) * (n - 2)) \div 6
(* every subset of 1..D once, in combination order *)
AllTerms == Len(a.terms) = Bin(D, 1) + Bin(D, 2) + (IF D >= 3 THEN Bin(D, 3) ELSE 0) /\ \A s, t \in 1..Len(a.terms) : s # t => SubsetOf(a.terms[s]) # SubsetOf(a.terms[t])
Shares == \A t \in 1..Len(a.S) : RLe(<<0, 1>>, a.S[t]) /\ RLe(a.S[t], <<1, 1>>)
(* all terms together are the whole variance, and the emulator is the function itself *)
Whole == Done => sum = <<1, 1>> /\ a.sum = <<1, 1>> /\ \A p \in 1..NPts : a.emu[p] = a.n * y[p]
TotalsAgree == Done => \A i \in 1..D : ST[i] = a.ST[i]
TotalAtLeastFirst == Done => \A i \in 1..D : RLe(a.S[i], a.ST[i])
(* a parameter the output does not depend on has no share at all *)
Depends(i) == \E p, q \in 1..NPts : Agree(Lev, (1..D) \ {i}, p, q) /\ y[p] # y[q]
Irrelevant == Done => \A i \in 1..D : ~Depends(i) => ST[i] = <<0, 1>>
(* an additive output has first-order shares only *)
Additive == \A t \in (D + 1)..Len(a.terms) : a.S[t] = <<0, 1>>
AdditiveTotals == (Done /\ Additive) => \A i \in 1..D : ST[i] = a.S[i]
=============================================================================
