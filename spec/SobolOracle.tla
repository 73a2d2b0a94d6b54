----------------------------- MODULE SobolOracle ----------------------------
(* Runs the consumer on concrete outputs and writes the exact indices.        *)
(* resample: compute for each listed sequence of block numbers as well.       *)
EXTENDS SobolIndices, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
ovars == <<ivars, ci, results>>
Load(c) == /\ grp' = Effective(c.groups) /\ so' = c.so
           /\ n' = (IF Accepts(Len(c.y), Effective(c.groups), c.so) THEN Len(c.y) \div (IF c.so THEN 2*NumGroups(Effective(c.groups))+2 ELSE NumGroups(Effective(c.groups))+2) ELSE 0)
           /\ blk' = 1 /\ pos' = 0 /\ last' = NoRow /\ store' = <<>>
Picks(bs, idx) == [i \in 1..Len(idx) |-> bs[idx[i]]]
Est(bs, t, s) == [s1 |-> [k \in 1..G |-> S1Of(bs, k, t, s)], st |-> [k \in 1..G |-> STOf(bs, k)],
                  s2 |-> IF so THEN [j \in 1..G |-> [k \in 1..G |-> IF j < k THEN S2Of(bs, j, k, t, s) ELSE <<0, 0>>]] ELSE <<>>]
Est1(bs, t, s) == [s1 |-> [k \in 1..G |-> S1Of(bs, k, t, s)], st |-> [k \in 1..G |-> STOf(bs, k)]]
Result == LET c == Cases[ci] t == Len(c.y) s == Total(store) IN
  IF n = 0 THEN [accept |-> FALSE, g |-> G]
  ELSE [accept |-> TRUE, g |-> G, main |-> Est(store, t, s),
        res |-> [i \in 1..Len(c.picks) |-> IF "s2" \in DOMAIN c THEN Est(Picks(store, c.picks[i]), t, s) ELSE Est1(Picks(store, c.picks[i]), t, s)]]
OInit == /\ ci = 0 /\ results = <<>> /\ grp = <<1>> /\ so = FALSE /\ n = 0 /\ blk = 1 /\ pos = 0 /\ last = NoRow /\ store = <<>>
Read == /\ ci \in 1..Len(Cases) /\ n > 0 /\ blk <= n
        /\ Consume(Cases[ci].y[(blk - 1) * BlockLen + pos + 1]) /\ UNCHANGED <<ci, results>>
Finish == /\ ci <= Len(Cases) /\ (ci = 0 \/ n = 0 \/ blk = n + 1)
          /\ results' = (IF ci = 0 THEN results ELSE Append(results, Result))
          /\ ci' = ci + 1
          /\ IF ci + 1 <= Len(Cases) THEN Load(Cases[ci + 1]) ELSE UNCHANGED ivars
Write == /\ ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED <<ivars, results>>
OSpec == OInit /\ [][Read \/ Finish \/ Write]_ovars
=============================================================================
