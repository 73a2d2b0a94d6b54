----------------------------- MODULE MCParamFile ----------------------------
(* All files of up to L characters over a small alphabet.                     *)
EXTENDS ParamFile
CONSTANTS L, Alphabet
Seqs == UNION {[1..n -> Alphabet] : n \in 0..L}
MCInit == \E f \in Seqs : file = f /\ delim = "," /\ pos = 1 /\ mode = "line" /\ q = "" /\ field = <<>> /\ fields = <<>> /\ rows = <<>>
MCSpec == MCInit /\ [][Read]_pfvars /\ WF_pfvars(Read)
Terminates == <>Done
\* a second reading: split the file into lines, drop comments, split lines into fields
RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, acc) == IF s = <<>> THEN <<acc>> ELSE IF s[1] = c THEN <<acc>> \o SplitAt(Tail1(s), c, <<>>) ELSE SplitAt(Tail1(s), c, Append(acc, s[1]))
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = " " THEN Strip(Tail1(s)) ELSE s
IsData(l) == Strip(l) # <<>> /\ Strip(l)[1] # "#"
DataLines == SelectSeq(SplitAt(file, NL, <<>>), IsData)
FieldsOf(l) == LET p == SplitAt(l, delim, <<>>) IN [i \in 1..Len(p) |-> Strip(p[i])]
TwoReadingsAgree == Done => rows = [i \in 1..Len(DataLines) |-> FieldsOf(DataLines[i])]
RowPerLine == Len(rows) <= Cardinality({i \in 1..Len(file) : file[i] = NL}) + 1
\* groups and distributions are parallel to the names
Parallel == Done => LET P == Problem(rows) IN P.status = "ok" =>
   /\ Len(P.names) = Len(P.lower) /\ Len(P.names) = Len(P.upper) /\ (P.groups = <<>> \/ Len(P.groups) = Len(P.names))
   /\ P.groups # <<>> => P.groups # P.names
=============================================================================
