--------------------------- MODULE RandomStreams ----------------------------
(* Which random stream a call draws from.  A stream is named by its origin    *)
(* (a seed, or an entropy number) and how far it has been consumed.           *)
(* Kinds of call:                                                             *)
(*   private  - own generator built from the seed (samplers, some analyses)   *)
(*   global   - the process-wide generator, re-started from the seed if given *)
(*   fixed    - draws nothing                                                 *)
(*   user     - the user's own draws from / re-seeding of the global stream   *)
EXTENDS Integers, Sequences, FiniteSets
NoSeed == -1
(* the draws a call makes: <<origin, position>> where they start              *)
Draws(kind, seed, g, fresh) ==
  IF kind = "fixed" THEN <<0, 0>>
  ELSE IF seed # NoSeed THEN <<seed, 0>>
  ELSE IF kind = "private" THEN <<fresh, 0>> ELSE g
GlobalAfter(kind, seed, g, n) ==
  IF kind \in {"private", "fixed"} THEN g
  ELSE IF seed # NoSeed THEN <<seed, n>> ELSE <<g[1], g[2] + n>>
(* log entry: m = the call and all its arguments but the seed, seed,          *)
(* out = what it returned, g0/g1 = global stream before/after, sampler        *)
Reproducible(log) == \A i, j \in 1..Len(log) :
   log[i].m = log[j].m /\ log[i].seed = log[j].seed /\ log[i].seed # NoSeed => log[i].out = log[j].out
SamplersPrivate(log) == \A i \in 1..Len(log) : log[i].sampler => log[i].g0 = log[i].g1
SeedsMatter(log) == \A i, j \in 1..Len(log) :
   log[i].m = log[j].m /\ log[i].sampler /\ log[i].random /\ log[i].seed # log[j].seed /\ log[i].seed # NoSeed /\ log[j].seed # NoSeed => log[i].out # log[j].out
=============================================================================
