----------------------------- MODULE MCAliasing -----------------------------
(* Two problem definitions p and q built from the same lists, one matrix X    *)
(* and one vector Y; any sequence of calls.  VARIANT selects the intended     *)
(* rules or a known wrong one, which must be refuted.                         *)
EXTENDS Aliasing
CONSTANTS L, VARIANT
VARIABLES obj, ptr, h, next
vars == <<obj, ptr, h, next>>
User == {"names", "bounds", "groups", "dists", "X", "Y"}        \* objects made by the user
Init == /\ obj = [o \in User |-> o] /\ next = 0 /\ h = 0
        /\ \E g \in {"none", "groups"}, d \in {"none", "dists"} :
             ptr = [x \in {"p", "q"} |-> [names |-> "names", bounds |-> "bounds", groups |-> g, dists |-> d]]
Step == h < L /\ h' = h + 1
Touch(o) == obj' = [obj EXCEPT ![o] = "changed"]
Sample == Step /\ UNCHANGED <<ptr, obj, next>>
MorrisSample == Step /\ \E x \in {"p", "q"} :
    /\ ptr' = [ptr EXCEPT ![x].groups = IF @ = "none" THEN "names" ELSE @] /\ UNCHANGED <<obj, next>>
(* two-level designs pad the problem given with dummies *)
Pad == Step /\ \E x \in {"p", "q"} :
    IF VARIANT = "extend-in-place"
    THEN Touch(ptr[x].names) /\ UNCHANGED <<ptr, next>>
    ELSE /\ ptr' = [ptr EXCEPT ![x] = [names |-> "new", bounds |-> "new", groups |-> IF @.groups = "none" THEN "none" ELSE "new", dists |-> IF @.dists = "none" THEN "none" ELSE "new"]]
         /\ UNCHANGED <<obj, next>>
Analyze == Step /\ (IF VARIANT = "scale-in-place" THEN Touch("X") ELSE UNCHANGED obj) /\ UNCHANGED <<ptr, next>>
NameTerms == Step /\ (IF VARIANT = "terms-in-names" THEN Touch(ptr["p"].names) ELSE UNCHANGED obj) /\ UNCHANGED <<ptr, next>>
Next == Sample \/ MorrisSample \/ Pad \/ Analyze \/ NameTerms
Spec == Init /\ [][Next]_vars
UserDataUntouched == \A o \in User : obj[o] = o
=============================================================================
