--------------------------- MODULE SaltelliTrace ----------------------------
(* Recorded designs checked against Saltelli.  A case carries the problem's   *)
(* group labels (integers, raw order), the options, and one code vector per   *)
(* real row: 1 = equals only the block's A cell, 2 = only B, 3 = both,        *)
(* 0 = neither; `strata[c]` = stratum hit by base column c in each block      *)
(* (empty when not applicable), `colid[c]` = identity class of base column c. *)
EXTENDS Saltelli, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, verdicts
tvars == <<svars, ci, l, verdicts>>

Start(c) == /\ grp' = Effective(c.groups) /\ so' = c.so /\ n' = c.n
            /\ blk' = 1 /\ pos' = 0 /\ last' = NoRow /\ l' = 1
Cur == Cases[ci]
Verdict(ok, clause, at) == [ok |-> ok, clause |-> clause, at |-> at]

Match(row, codes) == /\ Len(codes) = Len(row.cells)
                     /\ \A j \in 1..Len(codes) : codes[j] = 3 \/ codes[j] = (IF row.cells[j] = "A" THEN 1 ELSE 2)

IsPermutation0(s) == \A v \in 0..(Len(s)-1) : \E i \in 1..Len(s) : s[i] = v
FinalClause(c) ==
  IF \E k \in 1..Len(c.strata) : ~IsPermutation0(c.strata[k]) THEN "stratified-column"
  ELSE IF Cardinality(Range(c.colid)) # Len(c.colid) THEN "distinct-base-columns"
  ELSE "ok"

NextCase(v) == /\ verdicts' = Append(verdicts, v)
               /\ ci' = ci + 1
               /\ IF ci + 1 <= Len(Cases) THEN Start(Cases[ci + 1])
                  ELSE UNCHANGED <<grp, so, n, blk, pos, last, l>>

TInit == /\ ci = 1 /\ l = 1 /\ verdicts = <<>>
         /\ grp = Effective(Cases[1].groups) /\ so = Cases[1].so /\ n = Cases[1].n
         /\ blk = 1 /\ pos = 0 /\ last = NoRow
StepRow == /\ ci <= Len(Cases) /\ blk <= n /\ l <= Len(Cur.rows)
           /\ \/ (SNext /\ Match(last', Cur.rows[l]) /\ l' = l + 1 /\ UNCHANGED <<ci, verdicts>>)
              \/ (~ENABLED(SNext /\ Match(last', Cur.rows[l]))
                  /\ NextCase(Verdict(FALSE, "row-kind", l)))
EndCase == /\ ci <= Len(Cases)
           /\ \/ (blk <= n /\ l > Len(Cur.rows) /\ NextCase(Verdict(FALSE, "missing-rows", l)))
              \/ (blk = n + 1 /\ l <= Len(Cur.rows) /\ NextCase(Verdict(FALSE, "extra-rows", l)))
              \/ (blk = n + 1 /\ l > Len(Cur.rows)
                  /\ LET f == FinalClause(Cur) IN NextCase(Verdict(f = "ok", f, 0)))
Write == /\ ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, verdicts)
         /\ ci' = ci + 1 /\ UNCHANGED <<svars, l, verdicts>>
OSpec == TInit /\ [][StepRow \/ EndCase \/ Write]_tvars
=============================================================================
