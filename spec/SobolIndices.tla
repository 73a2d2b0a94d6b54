---------------------------- MODULE SobolIndices ----------------------------
(* The Sobol analysis as the consumer of a Saltelli design: it reads one      *)
(* output per emitted row (same row order: actions of Saltelli.tla), and      *)
(* evaluates the Saltelli-2010 (S1, ST) and -2002 (S2) estimators exactly.    *)
EXTENDS Saltelli, Rat
VARIABLE store   \* outputs consumed: per block [A, B, AB, BA]
ivars == <<svars, store>>

EmptyBlock == [a |-> 0, b |-> 0, ab |-> [k \in 1..G |-> 0], ba |-> [k \in 1..G |-> 0]]
(* consume output y for the row that Saltelli emits next *)
Consume(y) ==
  /\ SNext
  /\ LET i == last'.blk
         old == IF i <= Len(store) THEN store[i] ELSE EmptyBlock
         new == CASE last'.kind = "A"  -> [old EXCEPT !.a = y]
                  [] last'.kind = "B"  -> [old EXCEPT !.b = y]
                  [] last'.kind = "AB" -> [old EXCEPT !.ab[last'.g] = y]
                  [] last'.kind = "BA" -> [old EXCEPT !.ba[last'.g] = y]
     IN store' = IF i <= Len(store) THEN [store EXCEPT ![i] = new] ELSE Append(store, new)

(* --- estimators over a sequence of blocks; (t, s): count and sum of all     *)
(* outputs, by which the analysis centres them (the scaling cancels) ---      *)
C(y, t, s) == t * y - s                       \* t * (y - mean)
VNum(bs) == LET nb == Len(bs)                 \* (2nb)^2 * variance of A and B outputs
                f(i) == bs[i].a + bs[i].b
                g(i) == bs[i].a * bs[i].a + bs[i].b * bs[i].b
            IN 2 * nb * SumTo(g, nb) - SumTo(f, nb) * SumTo(f, nb)
S1Of(bs, k, t, s) ==
  LET nb == Len(bs) v == VNum(bs)
      f(i) == C(bs[i].b, t, s) * (bs[i].ab[k] - bs[i].a)
  IN IF v = 0 THEN <<0, 1>> ELSE R(4 * nb * SumTo(f, nb), t * v)
STOf(bs, k) ==
  LET nb == Len(bs) v == VNum(bs)
      f(i) == (bs[i].a - bs[i].ab[k]) * (bs[i].a - bs[i].ab[k])
  IN IF v = 0 THEN <<0, 1>> ELSE R(2 * nb * SumTo(f, nb), v)
S2Of(bs, j, k, t, s) ==
  LET nb == Len(bs) v == VNum(bs)
      f(i) == C(bs[i].ba[j], t, s) * C(bs[i].ab[k], t, s) - C(bs[i].a, t, s) * C(bs[i].b, t, s)
              - t * C(bs[i].b, t, s) * (bs[i].ab[j] - bs[i].a)
              - t * C(bs[i].b, t, s) * (bs[i].ab[k] - bs[i].a)
  IN IF v = 0 THEN <<0, 1>> ELSE R(4 * nb * SumTo(f, nb), t * t * v)

Total(bs) == LET f(i) == bs[i].a + bs[i].b + SumSeq(bs[i].ab) + (IF so THEN SumSeq(bs[i].ba) ELSE 0) IN SumTo(f, Len(bs))
Accepts(len, gr, second) == LET g == NumGroups(gr) b == IF second THEN 2*g+2 ELSE g+2 IN len % b = 0
=============================================================================
