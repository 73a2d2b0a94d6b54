----------------------------- MODULE MCMorrisEE -----------------------------
(* Every integer model on {0..p-1}^2 restricted to linear+interaction form,   *)
(* every trajectory: an additive model's effects are its coefficients.        *)
EXTENDS MorrisEE
CONSTANTS Coefs
VARIABLES a, b, c
mvars == <<evars, a, b, c>>
F(q) == a * q[1] + b * q[2] + c * q[1] * q[2]
Init == /\ p = 4 /\ grp \in {<<1, 2>>, <<1, 1>>} /\ pt \in [1..2 -> 0..3] /\ moved = {} /\ traj = <<pt>>
        /\ a \in {x - 2 : x \in Coefs} /\ b \in {x - 2 : x \in Coefs} /\ c \in {0, 1} /\ ys = <<F(pt)>> /\ ee = <<<<>>, <<>>>>
Step == ee[1] = <<>> /\ (\E k \in 1..G : Move(k)) /\ Consume(F(pt')) /\ UNCHANGED <<ee, a, b, c>>
Done == Complete /\ ee[1] = <<>> /\ Finish /\ UNCHANGED <<mtvars, ys, a, b, c>>
Spec == Init /\ [][Step \/ Done]_mvars
Additive == (c = 0 /\ NumGroups(grp) = 2 /\ ee[1] # <<>>) => ee[1][1][1] = 2 * a /\ ee[2][1][1] = 2 * b
OnePer == Len(ee[1]) = Len(ee[2])
StarBound == ee[1] # <<>> => \A j \in 1..2 : RLe(RAbs(Mu(j)), MuStar(j))
(* parameters of one group share the size of the effect *)
SameSize == (grp = <<1, 1>> /\ ee[1] # <<>>) => MuStar(1) = MuStar(2)
=============================================================================
