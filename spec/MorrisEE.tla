------------------------------ MODULE MorrisEE ------------------------------
(* The Morris analysis as the consumer of a trajectory design: each step's    *)
(* output change is attributed to every parameter that moved in it.           *)
EXTENDS MorrisTraj, Rat
VARIABLES ys,     \* outputs of the rows of the current trajectory
          ee      \* per parameter, per completed trajectory: signed output change
evars == <<mtvars, ys, ee>>
Consume(y) == ys' = Append(ys, y)
Pts == traj
StepOf(j) == CHOOSE i \in 1..(Len(traj) - 1) : traj[i][j] # traj[i + 1][j]
Sgn(j) == LET i == StepOf(j) IN IF traj[i + 1][j] > traj[i][j] THEN 1 ELSE -1
Change(j) == Sgn(j) * (ys[StepOf(j) + 1] - ys[StepOf(j)])
HighRows(j) == Cardinality({i \in 1..Len(traj) : traj[i][j] > Shift(traj[i][j])})
(* signed square of the scaled effect: change^2 * (x variance)/(range^2 * y variance) *)
ScaledSq(j) == LET h == HighRows(j) t == Len(traj) v == VarNum(ys) c == Change(j)
               IN IF v = 0 THEN <<0, 1>> ELSE R((IF c < 0 THEN -1 ELSE 1) * c * c * h * (t - h), v)
Finish == ee' = [j \in 1..D |-> Append(ee[j], <<Change(j), ScaledSq(j)>>)]
(* statistics over trajectories; one grid step is p/(2(p-1)) of the range *)
Inv(c) == R(c * 2 * (p - 1), p)
Mean(s) == RDiv(RSumSeq([i \in 1..Len(s) |-> Inv(s[i])]), <<Len(s), 1>>)
Mu(j) == Mean([i \in 1..Len(ee[j]) |-> ee[j][i][1]])
MuStar(j) == Mean([i \in 1..Len(ee[j]) |-> Abs(ee[j][i][1])])
Sigma2(j) == LET s == [i \in 1..Len(ee[j]) |-> ee[j][i][1]] n == Len(s)
             IN IF n < 2 THEN <<0, 0>> ELSE RMul(R(VarNum(s), n * (n - 1)), R(4 * (p - 1) * (p - 1), p * p))
OfGroup(k) == Members(grp, k)
RECURSIVE RSumSet(_, _)
RSumSet(f, S) == IF S = {} THEN <<0, 1>> ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSumSet(f, S \ {x}))
GroupMean(f, k) == RDiv(RSumSet(f, OfGroup(k)), <<Cardinality(OfGroup(k)), 1>>)
=============================================================================
