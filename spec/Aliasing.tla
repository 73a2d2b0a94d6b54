------------------------------ MODULE Aliasing ------------------------------
(* Who may change what.  Objects the user made (lists, arrays) are shared by  *)
(* reference between problem definitions and calls; obj[o] is the content of  *)
(* object o, a problem's fields point at objects.                             *)
EXTENDS Integers, Sequences, FiniteSets
Fields == {"names", "bounds", "groups", "dists"}
(* documented additions to the problem a call is given *)
AllowedExtra(op) == {"sample_scaled"}
(* fields of the problem given to the call, before and after: content numbers, 0 = absent/None *)
FieldOK(op, f, before, after, b) ==
  \/ after = before
  \/ f = "groups" /\ before = 0 /\ after = b["names"]        \* defaulted to the parameter names
  \/ op = "ff.sample"                                        \* padded with dummies (shape decided by C11)
ProblemOK(op, b, a) == \A f \in Fields : FieldOK(op, f, b[f], a[f], b)
=============================================================================
