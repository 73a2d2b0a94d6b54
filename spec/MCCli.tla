-------------------------------- MODULE MCCli -------------------------------
(* Options in any order: the call does not depend on it.  Every method, up to *)
(* two optional options (each possibly given twice) beside the required ones. *)
EXTENDS Cli
Methods == {<<"sample", m>> : m \in DOMAIN SampleOpts} \cup {<<"analyze", m>> : m \in DOMAIN AnalyzeOpts}
FlagOf(o) == CHOOSE f \in o.flags : TRUE
Pair(o, v) == <<FlagOf(o), IF o.ty = "order" THEN (IF v = "v" THEN "1" ELSE "2") ELSE v>>
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : p[i] = p[j] => i = j}
MCInit == \E am \in Methods : LET os == Options(am[1], am[2]) IN
            \E C \in SUBSET {i \in 1..Len(os) : os[i].def # "*"} : Cardinality(C) <= 2 /\
              \E w \in Perms({i \in 1..Len(os) : os[i].def = "*"} \cup C), again \in {"no"} \cup {"yes" : i \in C} :
                /\ action = am[1] /\ method = am[2] /\ got = [x \in {} |-> ""]
                /\ rest = [k \in 1..Len(w) |-> Pair(os[w[k]], "v")] \o (IF again = "yes" THEN <<Pair(os[CHOOSE i \in C : TRUE], "w")>> ELSE <<>>)
MCSpec == MCInit /\ [][TakeOption]_cvars /\ WF_cvars(TakeOption)
\* no two options of a method share a spelling or a target
Unambiguous == \A i, j \in 1..Len(Opts) : i # j => Opts[i].flags \cap Opts[j].flags = {} /\ Opts[i].to # Opts[j].to
NeverStuck == ~Stuck
AllRead == rest = <<>> => ~Missing
Effect == rest = <<>> => \A i \in 1..Len(Opts) : Call[i].text \in {"v", "w", "1", "2", Opts[i].def} /\ (Opts[i].def = "*" => Call[i].text \in {"v", "1"})
Ends == <>(rest = <<>>)
=============================================================================
