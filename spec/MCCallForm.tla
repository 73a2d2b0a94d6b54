------------------------------ MODULE MCCallForm ----------------------------
(* Rewriting a request - spelling a default out or leaving it out, reordering *)
(* keywords, passing an argument by position or by name, calling the plain    *)
(* function or the workflow method - never changes what it means; naming an   *)
(* unknown option, giving one twice, too many positions, or leaving out a     *)
(* required argument makes it no request at all.                              *)
EXTENDS CallForm
CONSTANTS Methods, Extra
VARIABLES m, form, pos, kw, want, broken, edits, lay
vars == <<m, form, pos, kw, want, broken, edits, lay>>
S == Sig[m]
Vals(s, i) == {s.opts[i].d} \cup (IF Extra /\ Len(s.opts[i].alts) > 0 THEN {s.opts[i].alts[1]} ELSE {})
Front(q) == SubSeq(q, 1, Len(q) - 1)
AllKw(s, a) == [i \in 1..Len(s.lead) |-> <<s.lead[i], s.lead[i]>>] \o [i \in 1..Len(s.opts) |-> <<s.opts[i].n, a[i]>>]
Init == /\ m \in Methods /\ form = "function" /\ pos = <<>>
        /\ \E a \in [1..Len(Sig[m].opts) -> UNION {Vals(Sig[m], i) : i \in 1..Len(Sig[m].opts)}] :
             /\ \A i \in 1..Len(Sig[m].opts) : a[i] \in Vals(Sig[m], i)
             /\ kw = AllKw(Sig[m], a)
             /\ want = [n \in Names(Sig[m]) |-> IF IsOpt(Sig[m], n) THEN a[CHOOSE i \in 1..Len(Sig[m].opts) : Sig[m].opts[i].n = n] ELSE n]
        /\ broken = FALSE /\ edits = 0 /\ lay \in Layouts
Keep == UNCHANGED <<m, want, broken, lay>> /\ edits' = edits
HasKw(n) == \E i \in 1..Len(kw) : kw[i][1] = n
Without(i) == SubSeq(kw, 1, i - 1) \o SubSeq(kw, i + 1, Len(kw))
DropDefault == ~broken /\ \E i \in 1..Len(kw) : IsOpt(S, kw[i][1]) /\ kw[i][2] = Default(S, kw[i][1]) /\ kw' = Without(i) /\ UNCHANGED <<form, pos>> /\ Keep
SpellDefault == ~broken /\ \E i \in 1..Len(S.opts) : ~HasKw(S.opts[i].n)
                  /\ ~(\E k \in 1..Len(pos) : PosNames(S, form)[k] = S.opts[i].n)
                  /\ kw' = Append(kw, <<S.opts[i].n, S.opts[i].d>>) /\ UNCHANGED <<form, pos>> /\ Keep
Rotate == ~broken /\ Len(kw) > 1 /\ kw' = Tail(kw) \o <<Head(kw)>> /\ UNCHANGED <<form, pos>> /\ Keep
ToPosition == ~broken /\ Len(pos) < Len(PosNames(S, form))
                /\ \E i \in 1..Len(kw) : kw[i][1] = PosNames(S, form)[Len(pos) + 1] /\ pos' = Append(pos, kw[i][2]) /\ kw' = Without(i) /\ UNCHANGED form /\ Keep
ToKeyword == ~broken /\ Len(pos) > 0 /\ kw' = Append(kw, <<PosNames(S, form)[Len(pos)], pos[Len(pos)]>>) /\ pos' = Front(pos) /\ UNCHANGED form /\ Keep
(* to the workflow method: the arrays are left out, they come from the object *)
ToWorkflow == ~broken /\ form = "function" /\ form' = "workflow"
                /\ LET sup == Supplied(S, "workflow") IN
                   /\ kw' = SelectSeq(kw, LAMBDA e : e[1] \notin sup)
                   /\ pos' = IF sup = {} THEN pos ELSE IF Len(pos) <= Len(S.lead) THEN <<>> ELSE SubSeq(pos, Len(S.lead) + 1, Len(pos))
                   /\ Keep
(* damage *)
Damage(p, k) == broken' = TRUE /\ pos' = p /\ kw' = k /\ edits' = edits + 1 /\ UNCHANGED <<m, form, want, lay>>
Unknown == ~broken /\ \E i \in {0} : Damage(pos, Append(kw, <<"no_such_option", "1">>))
Twice == ~broken /\ \E i \in 1..Len(pos) : Damage(pos, Append(kw, <<PosNames(S, form)[i], pos[i]>>))
TooMany == ~broken /\ \E i \in {0} : LET n == Len(PosNames(S, form)) - Len(pos) IN Damage(pos \o [j \in 1..(n + 1) |-> "1"], kw)
Missing == ~broken /\ \E i \in 1..Len(kw) : ~IsOpt(S, kw[i][1]) /\ Damage(pos, Without(i))
SupplyAgain == ~broken /\ \E n \in Supplied(S, form) : Damage(pos, Append(kw, <<n, n>>))
Next == DropDefault \/ SpellDefault \/ Rotate \/ ToPosition \/ ToKeyword \/ ToWorkflow \/ Unknown \/ Twice \/ TooMany \/ Missing \/ SupplyAgain
Spec == Init /\ [][Next]_vars
MeaningKept == ~broken => Bind(S, form, pos, kw) = want
DamageSeen == broken => Bind(S, form, pos, kw) = Error
(* every option has a default which is no alternative, and a name of its own   *)
ASSUME TableOk == \A n \in DOMAIN Sig : LET s == Sig[n] IN
  /\ Cardinality(Names(s)) = Len(s.lead) + Len(s.opts)
  /\ \A i \in 1..Len(s.opts) : \A k \in 1..Len(s.opts[i].alts) : s.opts[i].alts[k] # s.opts[i].d
Mat == [i \in 1..3 |-> [j \in 1..2 |-> 10 * i + j]]
LayoutFree == LET l == Lay(lay, 3, 2) IN Load(Store(Mat, 3, 2, l), 3, 2, l) = Mat
=============================================================================
