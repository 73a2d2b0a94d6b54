----------------------------- MODULE MCRbdFast ------------------------------
(* All rank vectors up to NMAX rows: the path visits every row once, rises    *)
(* then falls, moves by at most two ranks, and follows row permutations.      *)
EXTENDS RbdFast
CONSTANTS NMAX
VARIABLES rk, path
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Init == \E n \in 2..NMAX : rk \in Perms(n) /\ path = <<>>
Walk == Len(path) < Len(rk) /\ path' = Append(path, Order(rk)[Len(path) + 1]) /\ UNCHANGED rk
Shuffle == Len(path) = Len(rk) /\ \E i \in 1..(Len(rk)-1) :
   rk' = [k \in 1..Len(rk) |-> IF k = i THEN rk[i+1] ELSE IF k = i + 1 THEN rk[i] ELSE rk[k]] /\ path' = <<>>
Next == Walk \/ Shuffle
Spec == Init /\ [][Next]_<<rk, path>>
n == Len(path)
EveryRowOnce == \A a, b \in 1..n : a # b => path[a] # path[b]
Triangle == \A a \in 1..n : a > 1 => LET p == rk[path[a-1]] q == rk[path[a]] IN
   (IF a <= Up(Len(rk)) THEN q = p + 2 ELSE (Abs(q - p) <= 2 /\ (a > Up(Len(rk)) + 1 => q = p - 2)))
ByValueOnly == n = Len(rk) => [a \in 1..n |-> rk[path[a]]] = [a \in 1..n |-> RankAt(n, a)]
Correction == \A a \in 0..4 : \A N \in 3..12 : \A M \in 1..((N - 1) \div 2) :
   LET s == R(a, 4) u == Unskew(s, N, M) IN RLe(u, s) /\ (a = 4 => u = <<1, 1>>)
=============================================================================
