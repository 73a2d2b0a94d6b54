------------------------------- MODULE CallForm -----------------------------
(* What a request means, whatever the form in which it is written.            *)
(* A request names a method and gives some of its arguments positionally (in  *)
(* the documented order) and some by keyword; the workflow object supplies    *)
(* the problem, the samples and the outputs itself.  Its meaning is the       *)
(* complete assignment of the method's options - documented defaults filled   *)
(* in - or Error.  Arrays are values: how a matrix is laid out in memory      *)
(* (order, strides, offset, direction) is no part of the meaning.             *)
EXTENDS Integers, Sequences, FiniteSets
Error == [none |-> "error"]
O(n, d, alts, e) == [n |-> n, d |-> d, alts |-> alts, e |-> e]
(* ---- the documented signatures: leading arguments, options in order ------ *)
(* e: giving another value of the option changes the result on the reference  *)
(* data of the harness (else the option changes nothing, or needs others)     *)
Conf == <<O("num_resamples", "100", <<"7", "20">>, TRUE), O("conf_level", "0.95", <<"0.5">>, TRUE)>>
Shown == <<O("print_to_console", "False", <<"True">>, FALSE)>>
Seed(e) == <<O("seed", "None", <<"3", "11">>, e)>>
Sig ==
 [ s_sobol |-> [kind |-> "sample", lead |-> <<"N">>, kwonly |-> TRUE,
     opts |-> <<O("calc_second_order", "True", <<"False">>, TRUE), O("scramble", "True", <<"False">>, TRUE), O("skip_values", "0", <<"16">>, TRUE)>> \o Seed(TRUE)],
   s_saltelli |-> [kind |-> "sample", lead |-> <<"N">>, kwonly |-> FALSE,
     opts |-> <<O("calc_second_order", "True", <<"False">>, TRUE), O("skip_values", "None", <<"64", "32">>, TRUE)>>],
   s_fast |-> [kind |-> "sample", lead |-> <<"N">>, kwonly |-> FALSE, opts |-> <<O("M", "4", <<"2", "3">>, TRUE)>> \o Seed(TRUE)],
   s_latin |-> [kind |-> "sample", lead |-> <<"N">>, kwonly |-> FALSE, opts |-> Seed(TRUE)],
   s_morris |-> [kind |-> "sample", lead |-> <<"N">>, kwonly |-> FALSE,
     opts |-> <<O("num_levels", "4", <<"6", "8">>, TRUE), O("optimal_trajectories", "None", <<"2", "3">>, TRUE), O("local_optimization", "True", <<"False">>, FALSE)>> \o Seed(TRUE)],
   s_finite_diff |-> [kind |-> "sample", lead |-> <<"N">>, kwonly |-> FALSE,
     opts |-> <<O("delta", "0.01", <<"0.02", "0.25">>, TRUE)>> \o Seed(FALSE) \o <<O("skip_values", "1024", <<"16", "512">>, TRUE)>>],
   s_ff |-> [kind |-> "sample", lead |-> <<>>, kwonly |-> FALSE, opts |-> Seed(FALSE)],
   a_sobol |-> [kind |-> "analyze", lead |-> <<"Y">>, kwonly |-> FALSE,
     opts |-> <<O("calc_second_order", "True", <<>>, FALSE)>> \o Conf \o Shown \o <<O("parallel", "False", <<>>, FALSE), O("n_processors", "None", <<"2">>, FALSE), O("keep_resamples", "False", <<"True">>, TRUE)>> \o Seed(TRUE)],
   a_morris |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE,
     opts |-> Conf \o <<O("scaled", "False", <<"True">>, TRUE)>> \o Shown \o <<O("num_levels", "4", <<"6">>, TRUE)>> \o Seed(TRUE)],
   a_fast |-> [kind |-> "analyze", lead |-> <<"Y">>, kwonly |-> FALSE, opts |-> <<O("M", "4", <<"2", "3">>, TRUE)>> \o Conf \o Shown \o Seed(TRUE)],
   a_rbd_fast |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE, opts |-> <<O("M", "10", <<"3", "6">>, TRUE)>> \o Conf \o Shown \o Seed(TRUE)],
   a_delta |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE,
     opts |-> Conf \o Shown \o Seed(TRUE) \o <<O("y_resamples", "None", <<"30">>, TRUE), O("method", "all", <<"delta", "sobol">>, TRUE), O("bootstrap_savedf", "None", <<>>, FALSE), O("bins_specs", "{}", <<"{'p1': 4}">>, TRUE)>>],
   a_dgsm |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE, opts |-> Conf \o Shown \o Seed(TRUE)],
   a_ff |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE, opts |-> <<O("second_order", "False", <<"True">>, TRUE)>> \o Shown \o Seed(FALSE)],
   a_pawn |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE, opts |-> <<O("S", "10", <<"4", "7">>, TRUE)>> \o Shown \o Seed(FALSE)],
   a_rsa |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE, opts |-> <<O("bins", "20", <<"4", "5">>, TRUE), O("target", "Y", <<"X">>, TRUE)>> \o Shown \o Seed(FALSE)],
   a_discrepancy |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE, opts |-> <<O("method", "WD", <<"CD", "MD", "L2-star">>, TRUE)>> \o Shown \o Seed(FALSE)],
   a_hdmr |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE,
     opts |-> <<O("maxorder", "2", <<"1">>, TRUE), O("maxiter", "100", <<"1">>, TRUE), O("m", "2", <<"4">>, TRUE), O("K", "20", <<"1", "2">>, TRUE), O("R", "None", <<"400">>, TRUE), O("alpha", "0.95", <<"0.8">>, TRUE), O("lambdax", "0.01", <<"1">>, TRUE)>> \o Shown \o Seed(TRUE)],
   a_enhanced_hdmr |-> [kind |-> "analyze", lead |-> <<"X", "Y">>, kwonly |-> FALSE,
     opts |-> <<O("max_order", "2", <<"1">>, TRUE), O("poly_order", "3", <<"2">>, TRUE), O("bootstrap", "20", <<"1", "2">>, TRUE), O("subset", "None", <<"400">>, TRUE), O("max_iter", "100", <<"1">>, FALSE), O("l2_penalty", "0.01", <<"1">>, FALSE),
               O("alpha", "0.95", <<"0.6">>, FALSE), O("extended_base", "True", <<"False">>, TRUE)>> \o Shown \o <<O("return_emulator", "False", <<>>, FALSE)>> \o Seed(TRUE)],
   f_ishigami |-> [kind |-> "evaluate", lead |-> <<"X">>, kwonly |-> FALSE, opts |-> <<O("A", "7.0", <<"3", "7.5">>, TRUE), O("B", "0.1", <<"0.3">>, TRUE)>>],
   f_sobol_g |-> [kind |-> "evaluate", lead |-> <<"values">>, kwonly |-> FALSE,
     opts |-> <<O("a", "None", <<"[0, 1, 2, 3, 0, 9, 9, 4]", "[9, 9, 0, 0, 1, 0, 2, 0]">>, TRUE), O("delta", "None", <<"[.5, 0, .25, 0, 0, 0, .5, .75]">>, TRUE), O("alpha", "None", <<"[1, 2, .5, 1, 1, 2, 3, .5]">>, TRUE)>>],
   f_lake |-> [kind |-> "evaluate", lead |-> <<"values">>, kwonly |-> FALSE, opts |-> <<O("nvars", "100", <<"12">>, TRUE), O("seed", "101", <<"5">>, TRUE)>>] ]
Names(s) == {s.lead[i] : i \in 1..Len(s.lead)} \cup {s.opts[i].n : i \in 1..Len(s.opts)}
Default(s, n) == LET i == CHOOSE i \in 1..Len(s.opts) : s.opts[i].n = n IN s.opts[i].d
IsOpt(s, n) == \E i \in 1..Len(s.opts) : s.opts[i].n = n
(* ---- forms ---- *)
(* "function": method(problem, ...)   "workflow": a method of the object, which
   supplies the problem, and - for analyses and models - the leading arrays    *)
Supplied(s, form) == IF form = "workflow" /\ s.kind # "sample" THEN {s.lead[i] : i \in 1..Len(s.lead)} ELSE {}
PosNames(s, form) ==
  (IF Supplied(s, form) = {} THEN s.lead ELSE <<>>) \o (IF s.kwonly THEN <<>> ELSE [i \in 1..Len(s.opts) |-> s.opts[i].n])
(* pos: values; kw: sequence of <<name, value>>; the array a leading argument
   stands for is written as its own name                                       *)
Bind(s, form, pos, kw) ==
  LET pn == PosNames(s, form)
      kn == {kw[i][1] : i \in 1..Len(kw)}
      given == {pn[i] : i \in 1..(IF Len(pos) < Len(pn) THEN Len(pos) ELSE Len(pn))}
      sup == Supplied(s, form)
      req == {s.lead[i] : i \in 1..Len(s.lead)}
  IN IF Len(pos) > Len(pn) \/ kn \cap given # {} \/ kn \cap sup # {} \/ Cardinality(kn) < Len(kw)
        \/ ~(kn \subseteq Names(s)) \/ ~(req \subseteq (kn \cup given \cup sup)) THEN Error
     ELSE [n \in Names(s) |-> IF n \in sup THEN n
                              ELSE IF n \in given THEN pos[CHOOSE i \in 1..Len(pos) : pn[i] = n]
                              ELSE IF n \in kn THEN kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = n][2]
                              ELSE Default(s, n)]
(* ---- defaults that depend on the request: what None stands for ----------- *)
RECURSIVE Pow2At(_, _)
Pow2At(p, n) == IF p >= n THEN p ELSE Pow2At(2 * p, n)
Half(n) == n \div 2
(* size: number of base samples (sampling) or of rows (analysis)               *)
StandsFor(m, n, size, a) ==
  CASE m = "s_saltelli" /\ n = "skip_values" -> (LET p == Pow2At(1, size) IN IF p < 16 THEN 16 ELSE p)
    [] m = "a_delta" /\ n = "y_resamples" -> size
    [] m = "a_hdmr" /\ n = "R" -> (IF a["K"] = "1" THEN size ELSE Half(size))
    [] m = "a_enhanced_hdmr" /\ n = "subset" -> (IF a["bootstrap"] = "1" THEN size ELSE Half(size))
    [] OTHER -> 0
(* options which only decide what is shown: they are no part of the result    *)
Presentation == {"print_to_console"}
(* ---- arrays in memory ---- *)
(* a layout places element (i, j) of an r x c matrix at cell off + i*sr + j*sc *)
Layouts == {"C", "F", "rows-strided", "cols-strided", "reversed-rows", "offset"}
Lay(k, r, c) ==
  CASE k = "C" -> [off |-> 0, sr |-> c, sc |-> 1, size |-> r * c]
    [] k = "F" -> [off |-> 0, sr |-> 1, sc |-> r, size |-> r * c]
    [] k = "rows-strided" -> [off |-> 0, sr |-> 2 * c, sc |-> 1, size |-> 2 * r * c]
    [] k = "cols-strided" -> [off |-> 1, sr |-> 3 * c, sc |-> 3, size |-> 3 * r * c]
    [] k = "reversed-rows" -> [off |-> (r - 1) * c, sr |-> -c, sc |-> 1, size |-> r * c]
    [] k = "offset" -> [off |-> 5, sr |-> c + 2, sc |-> 1, size |-> 5 + r * (c + 2)]
Cell(l, i, j) == l.off + (i - 1) * l.sr + (j - 1) * l.sc
Store(M, r, c, l) == [x \in 0..(l.size - 1) |-> IF \E i \in 1..r, j \in 1..c : Cell(l, i, j) = x
                        THEN LET q == CHOOSE q \in (1..r) \X (1..c) : Cell(l, q[1], q[2]) = x IN M[q[1]][q[2]] ELSE -1]
Load(mem, r, c, l) == [i \in 1..r |-> [j \in 1..c |-> mem[Cell(l, i, j)]]]
=============================================================================
