------------------------------ MODULE ParamFile -----------------------------
(* Reading a parameter file character by character.  A file is a sequence of  *)
(* one-character strings; delim is the column separator in use.               *)
(*   name , lower , upper [, group [, dist]]       '#' starts a comment line  *)
(* Blanks before a field are skipped, a field may be quoted.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES file, delim, pos, mode, q, field, fields, rows
pfvars == <<file, delim, pos, mode, q, field, fields, rows>>
NL == "\n"
Quotes == {"'", "\""}
Start(f, d) == file' = f /\ delim' = d /\ pos' = 1 /\ mode' = "line" /\ q' = "" /\ field' = <<>> /\ fields' = <<>> /\ rows' = <<>>
C == file[pos]
AtEnd == pos > Len(file)
Adv == pos' = pos + 1 /\ UNCHANGED <<file, delim>>
Push == fields' = Append(fields, field) /\ field' = <<>>
EndRow == rows' = Append(rows, Append(fields, field)) /\ fields' = <<>> /\ field' = <<>> /\ mode' = "line" /\ UNCHANGED q

Comment == /\ ~AtEnd /\ mode = "comment" /\ Adv
           /\ mode' = (IF C = NL THEN "line" ELSE "comment") /\ UNCHANGED <<q, field, fields, rows>>
LineStart == /\ ~AtEnd /\ mode = "line" /\ C \in {" ", NL, "#"} /\ Adv
             /\ mode' = (IF C = "#" THEN "comment" ELSE "line") /\ UNCHANGED <<q, field, fields, rows>>
FieldStart == /\ ~AtEnd /\ mode \in {"line", "start"} /\ ~(mode = "line" /\ C \in {" ", NL, "#"}) /\ Adv
              /\ IF C = " " THEN mode' = "start" /\ UNCHANGED <<q, field, fields, rows>>
                 ELSE IF C = delim THEN Push /\ mode' = "start" /\ UNCHANGED <<q, rows>>
                 ELSE IF C = NL THEN EndRow
                 ELSE IF C \in Quotes THEN q' = C /\ mode' = "quoted" /\ UNCHANGED <<field, fields, rows>>
                 ELSE field' = <<C>> /\ mode' = "in" /\ UNCHANGED <<q, fields, rows>>
InField == /\ ~AtEnd /\ mode \in {"in", "after"} /\ Adv
           /\ IF C = delim THEN Push /\ mode' = "start" /\ UNCHANGED <<q, rows>>
              ELSE IF C = NL THEN EndRow
              ELSE field' = Append(field, C) /\ UNCHANGED <<mode, q, fields, rows>>
Quoted == /\ ~AtEnd /\ mode = "quoted" /\ Adv
          /\ IF C = q THEN mode' = "after" /\ UNCHANGED <<q, field, fields, rows>>
             ELSE field' = Append(field, C) /\ UNCHANGED <<mode, q, fields, rows>>
LastLine == /\ AtEnd /\ mode \notin {"line", "comment"} /\ EndRow /\ UNCHANGED <<file, delim, pos>>
Done == AtEnd /\ mode \in {"line", "comment"}
Read == Comment \/ LineStart \/ FieldStart \/ InField \/ Quoted \/ LastLine

\* ---- meaning of the rows
Digit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Tail1(s) == SubSeq(s, 2, Len(s))
RECURSIVE Num(_, _)
\* automaton of decimal notations: sign, digits, point, exponent
Num(s, st) ==
  IF s = <<>> THEN st \in {"int", "frac", "exp"}
  ELSE LET c == s[1] IN
    CASE st = "begin" -> IF c \in {"+", "-"} THEN Num(Tail1(s), "sign") ELSE IF Digit(c) THEN Num(Tail1(s), "int") ELSE IF c = "." THEN Num(Tail1(s), "point") ELSE FALSE
      [] st = "sign" -> IF Digit(c) THEN Num(Tail1(s), "int") ELSE IF c = "." THEN Num(Tail1(s), "point") ELSE FALSE
      [] st = "int" -> IF Digit(c) THEN Num(Tail1(s), "int") ELSE IF c = "." THEN Num(Tail1(s), "frac") ELSE IF c \in {"e", "E"} THEN Num(Tail1(s), "e") ELSE FALSE
      [] st = "point" -> IF Digit(c) THEN Num(Tail1(s), "frac") ELSE FALSE
      [] st = "frac" -> IF Digit(c) THEN Num(Tail1(s), "frac") ELSE IF c \in {"e", "E"} THEN Num(Tail1(s), "e") ELSE FALSE
      [] st = "e" -> IF c \in {"+", "-"} THEN Num(Tail1(s), "esign") ELSE IF Digit(c) THEN Num(Tail1(s), "exp") ELSE FALSE
      [] st \in {"esign", "exp"} -> IF Digit(c) THEN Num(Tail1(s), "exp") ELSE FALSE
Numeric(s) == Num(s, "begin")
WellFormed(r) == Len(r) >= 3 /\ r[1] # <<>> /\ Numeric(r[2]) /\ Numeric(r[3])
NA == <<"N", "A">>
Unif == <<"u", "n", "i", "f">>
GroupOf(r) == IF Len(r) < 4 THEN r[1] ELSE IF r[4] \in {<<>>, NA} THEN r[1] ELSE r[4]
DistOf(r) == IF Len(r) < 5 THEN Unif ELSE IF r[5] = <<>> THEN Unif ELSE r[5]
Names(R) == [i \in 1..Len(R) |-> R[i][1]]
GroupSeq(R) == [i \in 1..Len(R) |-> GroupOf(R[i])]
DistSeq(R) == [i \in 1..Len(R) |-> DistOf(R[i])]
Rng(s) == {s[i] : i \in 1..Len(s)}
\* no information: every parameter is its own group / every distribution is uniform
GroupsNone(R) == GroupSeq(R) = Names(R)
DistsNone(R) == Rng(DistSeq(R)) \subseteq {Unif}
Problem(R) ==
  IF R = <<>> \/ \E i \in 1..Len(R) : ~WellFormed(R[i]) THEN [status |-> "malformed"]
  ELSE IF ~GroupsNone(R) /\ Cardinality(Rng(GroupSeq(R))) = 1 THEN [status |-> "one-group"]
  ELSE [status |-> "ok", names |-> Names(R), lower |-> [i \in 1..Len(R) |-> R[i][2]], upper |-> [i \in 1..Len(R) |-> R[i][3]],
        groups |-> (IF GroupsNone(R) THEN <<>> ELSE GroupSeq(R)), dists |-> (IF DistsNone(R) THEN <<>> ELSE DistSeq(R))]
=============================================================================
