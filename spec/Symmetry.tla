------------------------------ MODULE Symmetry ------------------------------
(* How each analysis' results transform when the same study is written down    *)
(* differently.  A study is (problem, design, outputs); the moves are           *)
(*   perm    the parameters are listed in another order (columns, bounds,      *)
(*           names, groups, and the design rows belonging to them)             *)
(*   rename  parameters and groups get other names                             *)
(*   affine  outputs become a Y + b                                            *)
(*   units   the design units (blocks, trajectories, rows) are reordered       *)
(*   xscale  a parameter is measured in other units (values and bounds)        *)
(* Law(kind, m, key) for one reported quantity of method m:                    *)
(*   "same"   unchanged        "lin" multiplied by a     "abs"  by |a|         *)
(*   "sq"     by a^2           "sgn" by the sign of a    "first" equal only    *)
(*   for the parameter listed first (it draws first from the random stream)    *)
(*   "kept"   unchanged for pairs whose members keep their order               *)
(*   "none"   nothing is claimed                                               *)
EXTENDS Groups, Integers

Law(kind, m, key) ==
  CASE kind = "rename" -> "same"
    [] kind = "perm" ->
       (CASE m = "sobol" /\ key \in {"S2", "S2_conf"} -> "kept"
          [] m \in {"morris", "morris_scaled"} /\ key = "mu_star_conf" -> "first"
          [] m \in {"fast", "rbd_fast"} /\ key \in {"S1_conf", "ST_conf"} -> "first"
          [] m = "dgsm" /\ key = "dgsm_conf" -> "first"
          [] m = "delta" -> "first"
          [] m = "ff" -> "none"      \* its design is a function of the column position
          [] OTHER -> "same")
    [] kind = "affine" ->
       (CASE m = "morris" -> (CASE key = "mu" -> "lin" [] OTHER -> "abs")
          [] m = "morris_scaled" -> (CASE key = "mu" -> "sgn" [] OTHER -> "same")
          [] m = "dgsm" /\ key \in {"vi", "vi_std", "dgsm_conf"} -> "sq"
          [] m = "ff" -> "lin"
          [] OTHER -> "same")
    [] kind = "negate" ->      \* a < 0: as affine, where the definition is reflection invariant
       (CASE m \in {"rsaY", "discL2-star"} -> "none"
          [] m = "morris" -> (CASE key = "mu" -> "lin" [] OTHER -> "abs")
          [] m = "morris_scaled" -> (CASE key = "mu" -> "sgn" [] OTHER -> "same")
          [] m = "dgsm" /\ key \in {"vi", "vi_std", "dgsm_conf"} -> "sq"
          [] m = "ff" -> "lin"
          [] OTHER -> "same")
    [] kind = "units" ->
       (CASE key \in {"S1_conf", "ST_conf", "S2_conf", "mu_star_conf", "dgsm_conf"} -> "none"
          [] m \in {"delta", "fast", "ff", "hdmr", "enhanced_hdmr"} -> "none"
          [] OTHER -> "same")
    [] kind = "xscale" ->
       (CASE m = "dgsm" /\ key # "dgsm" -> "none"
          [] OTHER -> "same")
    [] OTHER -> "none"

(* labels (parameters, or groups by first appearance) after listing in order perm: *)
(* new label k is old label OldLabel(grp, perm, k)                                 *)
NewGrp(grp, perm) == [i \in 1..Len(perm) |-> grp[perm[i]]]
OldLabel(grp, perm, k) == LET ng == NewGrp(grp, perm)
                              i == CHOOSE i \in 1..Len(ng) : Canon(ng)[i] = k
                          IN Canon(grp)[perm[i]]
=============================================================================
