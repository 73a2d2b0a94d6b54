--------------------------- MODULE MorrisEEOracle ---------------------------
EXTENDS MorrisEE, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, results
ovars == <<evars, ci, l, results>>
Cur == Cases[ci]
Fresh(c) == /\ grp' = Canon(c.groups) /\ p' = c.p /\ pt' = <<>> /\ moved' = {} /\ traj' = <<>> /\ ys' = <<>>
            /\ ee' = [j \in 1..Len(c.groups) |-> <<>>] /\ l' = 1
OInit == /\ ci = 1 /\ l = 1 /\ results = <<>> /\ grp = Canon(Cases[1].groups) /\ p = Cases[1].p /\ pt = <<>> /\ moved = {}
         /\ traj = <<>> /\ ys = <<>> /\ ee = [j \in 1..Len(Cases[1].groups) |-> <<>>]
Live == ci <= Len(Cases)
OBegin == Live /\ l <= Len(Cur.rows) /\ traj = <<>> /\ Begin(Cur.rows[l]) /\ Consume(Cur.y[l]) /\ l' = l + 1 /\ UNCHANGED <<ee, ci, results>>
OStep == /\ Live /\ traj # <<>> /\ ~Complete /\ l <= Len(Cur.rows)
         /\ \E k \in 1..G : Move(k) /\ pt' = Cur.rows[l]
         /\ Consume(Cur.y[l]) /\ l' = l + 1 /\ UNCHANGED <<ee, ci, results>>
OFinish == Live /\ traj # <<>> /\ Complete /\ Finish /\ traj' = <<>> /\ ys' = <<>> /\ moved' = {} /\ pt' = <<>> /\ UNCHANGED <<grp, p, l, ci, results>>
MuF == [j \in 1..D |-> Mu(j)]
MsF == [j \in 1..D |-> MuStar(j)]
Result == [g |-> G, canon |-> grp,
           mu |-> [k \in 1..G |-> GroupMean(MuF, k)], mu_star |-> [k \in 1..G |-> GroupMean(MsF, k)],
           sigma2 |-> [k \in 1..G |-> IF Cardinality(OfGroup(k)) = 1 THEN Sigma2(CHOOSE j \in OfGroup(k) : TRUE) ELSE <<0, 0>>],
           scaled |-> [j \in 1..D |-> [i \in 1..Len(ee[j]) |-> ee[j][i][2]]]]
OEmit == /\ Live /\ traj = <<>> /\ l > Len(Cur.rows) /\ results' = Append(results, Result) /\ ci' = ci + 1
         /\ IF ci + 1 <= Len(Cases) THEN Fresh(Cases[ci + 1]) ELSE UNCHANGED <<evars, l>>
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED <<evars, l, results>>
OSpec == OInit /\ [][OBegin \/ OStep \/ OFinish \/ OEmit \/ Write]_ovars
=============================================================================
