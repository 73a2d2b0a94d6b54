-------------------------- MODULE MCRandomStreams ---------------------------
(* All histories of at most L calls of two samplers, an analysis on the       *)
(* global stream, an analysis with a private one, and the user.  VARIANT      *)
(* "design" is the intended rule; the others are known ways to get it wrong   *)
(* and must violate the guarantee (checked, so that it is not vacuous).       *)
EXTENDS RandomStreams
CONSTANTS L, VARIANT
VARIABLES g, log, fresh, cached, h
vars == <<g, log, fresh, cached, h>>
Seeds == {NoSeed, 0, 1}
Init == g = <<100, 0>> /\ log = <<>> /\ fresh = 200 /\ h = 0 /\ cached = [s \in {0, 1} |-> 0]
Eff(seed) == IF VARIANT = "truthy" /\ seed = 0 THEN NoSeed ELSE seed
Call(m, kind, seed, n, sampler) ==
  LET k == IF VARIANT = "sampler-on-global" /\ sampler THEN "global" ELSE kind
      s == Eff(seed)
      d0 == Draws(k, s, g, fresh)
      d == IF VARIANT = "cached-generator" /\ s # NoSeed /\ k = "private" THEN <<d0[1], cached[s]>> ELSE d0
      g1 == GlobalAfter(k, s, g, n)
  IN /\ log' = Append(log, [m |-> m, seed |-> seed, out |-> <<m, d>>, g0 |-> g, g1 |-> g1, sampler |-> sampler, random |-> TRUE])
     /\ g' = g1 /\ fresh' = fresh + 1
     /\ cached' = IF s # NoSeed /\ k = "private" THEN [cached EXCEPT ![s] = @ + n] ELSE cached
Step == h < L /\ h' = h + 1
Sample == Step /\ \E m \in {1, 2}, s \in Seeds : Call(m, "private", s, m, TRUE)
AnalyzeGlobal == Step /\ \E s \in Seeds : Call(3, "global", s, 2, FALSE)
AnalyzePrivate == Step /\ \E s \in Seeds : Call(4, "private", s, 1, FALSE)
UserDraw == Step /\ g' = <<g[1], g[2] + 1>> /\ UNCHANGED <<log, fresh, cached>>
UserSeed == Step /\ \E s \in {0, 7} : g' = <<s, 0>> /\ UNCHANGED <<log, fresh, cached>>
Next == Sample \/ AnalyzeGlobal \/ AnalyzePrivate \/ UserDraw \/ UserSeed
Spec == Init /\ [][Next]_vars
Guarantee == Reproducible(log) /\ SamplersPrivate(log) /\ SeedsMatter(log)
=============================================================================
