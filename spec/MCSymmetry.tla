----------------------------- MODULE MCSymmetry -----------------------------
(* The definitions of the indices (other modules) commute with the moves.      *)
EXTENDS Integers, Sequences, TLC
PW == INSTANCE Pawn
RS == INSTANCE Rsa
DC == INSTANCE Discrepancy
RB == INSTANCE RbdFast
SI == INSTANCE SobolIndices WITH grp <- <<1, 2>>, so <- TRUE, n <- 1, blk <- 1, pos <- 0, last <- 0, store <- <<>>
CONSTANTS NDATA, CLAIM
DATA == << [x |-> <<<<0,2,4,1>>, <<3,1,0,4>>>>, y |-> <<1,0,3,2>>],
           [x |-> <<<<4,3,1,0>>, <<0,1,4,2>>>>, y |-> <<0,0,1,3>>],
           [x |-> <<<<1,0,3,4>>, <<2,4,0,1>>>>, y |-> <<2,3,0,0>>],
           [x |-> <<<<0,1,2,4>>, <<4,2,1,0>>>>, y |-> <<1,1,0,2>>] >>
VARIABLES d, xs, y, lab, rows, neg, grown
vars == <<d, xs, y, lab, rows, neg, grown>>
Swap(s, i) == [k \in 1..Len(s) |-> IF k = i THEN s[i+1] ELSE IF k = i+1 THEN s[i] ELSE s[k]]
Init == d \in 1..NDATA /\ xs = DATA[d].x /\ y = DATA[d].y /\ lab = <<1, 2>> /\ rows = <<1,2,3,4>> /\ neg = FALSE /\ grown = FALSE
ListOther == /\ xs' = <<xs[2], xs[1]>> /\ lab' = <<lab[2], lab[1]>> /\ UNCHANGED <<d, y, rows, neg, grown>>
ReorderRows == /\ TRUE
               /\ \E i \in 1..3 : xs' = <<Swap(xs[1], i), Swap(xs[2], i)>> /\ y' = Swap(y, i) /\ rows' = Swap(rows, i)
               /\ UNCHANGED <<d, lab, neg, grown>>
Negate == /\ y' = [i \in 1..4 |-> (IF grown THEN 8 ELSE 3) - y[i]] /\ neg' = ~neg /\ UNCHANGED <<d, xs, lab, rows, grown>>
Grow == /\ ~grown /\ grown' = TRUE
        /\ y' = [i \in 1..4 |-> 2 * y[i] + 1] /\ UNCHANGED <<d, xs, lab, rows, neg>>
Next == ListOther \/ ReorderRows \/ Negate \/ Grow
Spec == Init /\ [][Next]_vars

B == DATA[d]
Old(j) == B.x[lab[j]]
PawnSame == \A j \in 1..2 : PW!Stats(xs[j], y, 2) = PW!Stats(Old(j), B.y, 2)
RsaXSame == \A j \in 1..2 : RS!Column(xs[j], y, "X", 2) = RS!Column(Old(j), B.y, "X", 2)
RsaYSame == (CLAIM = "all" => ~neg) => \A j \in 1..2 : RS!Column(xs[j], y, "Y", 2) = RS!Column(Old(j), B.y, "Y", 2)
Zero(s) == LET m == DC!MinOf({s[i] : i \in 1..Len(s)}) IN [i \in 1..Len(s) |-> s[i] - m]
Top(s) == DC!MaxOf({Zero(s)[i] : i \in 1..Len(s)})
DiscSame == \A m \in {"WD", "CD", "MD", "L2-star"} : (m = "L2-star" /\ CLAIM = "all" => ~neg) =>
              \A j \in 1..2 : DC!Disc(m, xs[j], Zero(y), 4, Top(y)) = DC!Disc(m, Old(j), Zero(B.y), 4, Top(B.y))
(* RBD reads the outputs in the order of the input's ranks, whatever the row order *)
RankSeq(s) == [i \in 1..Len(s) |-> 1 + DC!SumTo(LAMBDA k : IF s[k] < s[i] THEN 1 ELSE 0, Len(s))]
Read(x, yy) == LET o == RB!Order(RankSeq(x)) IN [k \in 1..Len(x) |-> yy[o[k]]]
Img(v) == LET g == IF grown THEN 2 * v + 1 ELSE v IN IF neg THEN (IF grown THEN 8 ELSE 3) - g ELSE g
RbdSame == \A j \in 1..2 : Read(xs[j], y) = [k \in 1..4 |-> Img(Read(Old(j), B.y)[k])]
(* Sobol': two blocks, two groups, built from the current outputs *)
Blk(s, t, flip) == LET e == <<s[1], s[2]>> f == <<t[1], s[3]>> IN
   [a |-> s[4], b |-> t[2], ab |-> IF flip THEN <<e[2], e[1]>> ELSE e, ba |-> IF flip THEN <<f[2], f[1]>> ELSE f]
BS(s, flip) == LET t == Swap(s, 1) b1 == Blk(s, t, flip) b2 == Blk(t, Swap(s, 3), flip)
               IN IF rows[1] < rows[2] THEN <<b1, b2>> ELSE <<b2, b1>>
Base == BS(B.y, FALSE)
Cur == BS([i \in 1..4 |-> Img(B.y[i])], lab[1] = 2)
Tot(bs) == DC!SumTo(LAMBDA i : bs[i].a + bs[i].b + DC!SumSeq(bs[i].ab) + DC!SumSeq(bs[i].ba), 2)
SobolSame == \A k \in 1..2 : /\ SI!S1Of(Cur, k, 12, Tot(Cur)) = SI!S1Of(Base, lab[k], 12, Tot(Base))
                             /\ SI!STOf(Cur, k) = SI!STOf(Base, lab[k])
S2Same == (CLAIM = "all" => lab[1] = 1) => SI!S2Of(Cur, 1, 2, 12, Tot(Cur)) = SI!S2Of(Base, 1, 2, 12, Tot(Base))
=============================================================================
