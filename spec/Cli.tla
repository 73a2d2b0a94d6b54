--------------------------------- MODULE Cli --------------------------------
(* The command line: which options each method has, and the library call a    *)
(* sequence of options stands for.  An option is [flags, to, ty, def]: its    *)
(* spellings, the argument it sets, how its text is read, and its default     *)
(* text ("*" = required, "none" = no value).  Options may come in any order;  *)
(* a repeated option keeps its last value.                                    *)
EXTENDS Integers, Sequences, FiniteSets
O(flags, to, ty, def) == [flags |-> flags, to |-> to, ty |-> ty, def |-> def]
SampleCommon == << O({"-n", "--samples"}, "N", "int", "*"), O({"-p", "--paramfile"}, "paramfile", "str", "*"), O({"-o", "--output"}, "output", "str", "*"),
                   O({"--delimiter"}, "delimiter", "str", " "), O({"--precision"}, "precision", "int", "8") >>
Seed == << O({"-s", "--seed"}, "seed", "int", "none") >>
AnalyzeCommon == << O({"-p", "--paramfile"}, "paramfile", "str", "*"), O({"-Y", "--model-output-file"}, "Y", "str", "*"), O({"-c", "--column"}, "column", "int", "0"),
                    O({"--delimiter"}, "delimiter", "str", " ") >>
XFile == << O({"-X", "--model-input-file"}, "X", "str", "*") >>
MaxOrder(to) == << O({"--max-order"}, to, "order", "2") >>
Resamples(d) == << O({"-r", "--resamples"}, "num_resamples", "int", d) >>
SampleOpts ==
  [ sobol |-> MaxOrder("calc_second_order") \o << O({"--scramble"}, "scramble", "01", "1"), O({"--skip-values"}, "skip_values", "int", "0") >> \o Seed,
    saltelli |-> MaxOrder("calc_second_order") \o << O({"--skip-values"}, "skip_values", "int", "none") >>,
    latin |-> Seed,
    morris |-> << O({"-l", "--levels"}, "num_levels", "int", "4"), O({"-k", "--k-optimal"}, "optimal_trajectories", "int", "none"), O({"-lo", "--local"}, "local_optimization", "truth", "false") >> \o Seed,
    fast_sampler |-> << O({"-M", "--m-coef"}, "M", "int", "4") >> \o Seed,
    finite_diff |-> << O({"-d", "--delta"}, "delta", "float", "0.01") >> \o Seed,
    ff |-> Seed ]
AnalyzeOpts ==
  [ sobol |-> MaxOrder("calc_second_order") \o Resamples("100") \o << O({"--parallel"}, "parallel", "flag", "false"), O({"--processors"}, "n_processors", "int", "none") >> \o Seed,
    morris |-> XFile \o Resamples("1000") \o << O({"-l", "--levels"}, "num_levels", "int", "4"), O({"--scaled"}, "scaled", "truth", "false") >> \o Seed,
    fast |-> << O({"-M", "--M"}, "M", "int", "4") >> \o Resamples("100") \o Seed,
    rbd_fast |-> XFile \o << O({"-M", "--M"}, "M", "int", "10") >> \o Resamples("100") \o Seed,
    delta |-> XFile \o Resamples("10") \o << O({"-m", "--method"}, "method", "str", "all"), O({"--y_resamples"}, "y_resamples", "int", "none"), O({"--bootstrap_savedf"}, "bootstrap_savedf", "str", "none"), O({"--bins_specs"}, "bins_specs", "json", "{}") >> \o Seed,
    dgsm |-> XFile \o Resamples("1000") \o Seed,
    ff |-> XFile \o MaxOrder("second_order") \o Seed,
    pawn |-> XFile \o << O({"-S", "--slices"}, "S", "int", "10") >> \o Seed,
    rsa |-> XFile \o << O({"-b", "--bins"}, "bins", "int", "20"), O({"-t", "--target"}, "target", "str", "Y") >> \o Seed,
    discrepancy |-> XFile \o Seed,
    hdmr |-> XFile \o << O({"-mor", "--maxorder"}, "maxorder", "int", "2"), O({"-mit", "--maxiter"}, "maxiter", "int", "100"), O({"-m", "--m-int"}, "m", "int", "2"), O({"-K", "--K-bootstrap"}, "K", "int", "20"),
                         O({"-R", "--R-subsample"}, "R", "int", "none"), O({"-a", "--alpha"}, "alpha", "float", "0.95"), O({"-lambda", "--lambdax"}, "lambdax", "float", "0.01") >> \o Seed,
    enhanced_hdmr |-> XFile \o << O({"-mor", "--max-order"}, "max_order", "int", "2"), O({"-por", "--poly-order"}, "poly_order", "int", "2"), O({"-K", "--bootstrap"}, "bootstrap", "int", "20"), O({"-R", "--subset"}, "subset", "int", "none"),
                         O({"-mit", "--max-iter"}, "max_iter", "int", "100"), O({"-l2", "--l2-penalty"}, "l2_penalty", "float", "0.01"), O({"-a", "--alpha"}, "alpha", "float", "0.95"),
                         O({"-ext", "--extended-base"}, "extended_base", "truth", "true"), O({"-print", "--print-to-console"}, "print_to_console", "truth", "false"), O({"-emul", "--return-emulator"}, "return_emulator", "truth", "false") >> \o Seed ]
Options(act, m) == IF act = "sample" THEN SampleCommon \o SampleOpts[m] ELSE AnalyzeCommon \o AnalyzeOpts[m]
Choices(o) == IF o.ty = "order" THEN {"1", "2"} ELSE {}

VARIABLES action, method, rest, got
cvars == <<action, method, rest, got>>
Opts == Options(action, method)
Known(f) == \E i \in 1..Len(Opts) : f \in Opts[i].flags
OptOf(f) == LET i == CHOOSE i \in 1..Len(Opts) : f \in Opts[i].flags IN Opts[i]
\* rest: sequence of <<flag, text>>; got: option target -> text
Begin(a, m, toks) == action' = a /\ method' = m /\ rest' = toks /\ got' = [x \in {} |-> ""]
Legal(o, v) == Choices(o) = {} \/ v \in Choices(o)
TakeOption == /\ rest # <<>> /\ Known(rest[1][1]) /\ Legal(OptOf(rest[1][1]), rest[1][2])
              /\ got' = [x \in DOMAIN got \cup {OptOf(rest[1][1]).to} |-> IF x = OptOf(rest[1][1]).to THEN rest[1][2] ELSE got[x]]
              /\ rest' = SubSeq(rest, 2, Len(rest)) /\ UNCHANGED <<action, method>>
Stuck == rest # <<>> /\ ~ENABLED TakeOption
Bad(t) == IF Known(t[1]) THEN ~Legal(OptOf(t[1]), t[2]) ELSE TRUE
Missing == \E i \in 1..Len(Opts) : Opts[i].def = "*" /\ Opts[i].to \notin DOMAIN got
\* the library call, once all options are read: argument -> <<type, text>>
Call == [i \in 1..Len(Opts) |-> [to |-> Opts[i].to, ty |-> Opts[i].ty, text |-> IF Opts[i].to \in DOMAIN got THEN got[Opts[i].to] ELSE Opts[i].def]]
=============================================================================
