---------------------------- MODULE RandomTrace -----------------------------
(* The log of everything that ran, one entry per call (see RandomStreams);    *)
(* m, seed, out, g0, g1 are identity numbers of the recorded bytes.           *)
EXTENDS RandomStreams, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, results
V(c, i) == [ok |-> c = "ok", clause |-> c, at |-> i]
Verdict(c) ==
  LET log == c.log
      bad(P(_)) == \E i \in 1..Len(log) : P(i)
      first(P(_)) == CHOOSE i \in 1..Len(log) : P(i) /\ \A j \in 1..(i-1) : ~P(j)
      irr(i) == log[i].seed # NoSeed /\ \E j \in 1..(i-1) : log[j].m = log[i].m /\ log[j].seed = log[i].seed /\ log[j].out # log[i].out
      tch(i) == log[i].sampler /\ log[i].g0 # log[i].g1
      col(i) == log[i].sampler /\ log[i].random /\ log[i].seed # NoSeed /\ \E j \in 1..(i-1) : log[j].m = log[i].m /\ log[j].seed # log[i].seed /\ log[j].seed # NoSeed /\ log[j].out = log[i].out
  IN IF bad(irr) THEN V("seed-does-not-determine-result", first(irr))
     ELSE IF bad(tch) THEN V("sampler-touches-global-generator", first(tch))
     ELSE IF bad(col) THEN V("different-seeds-same-sample", first(col))
     ELSE IF Reproducible(log) /\ SamplersPrivate(log) /\ SeedsMatter(log) THEN V("ok", 0) ELSE V("inconsistent", 0)
OInit == ci = 1 /\ results = <<>>
Eval == ci <= Len(Cases) /\ results' = Append(results, Verdict(Cases[ci])) /\ ci' = ci + 1
Write == ci = Len(Cases) + 1 /\ JsonSerialize(IOEnv.OUT, results) /\ ci' = ci + 1 /\ UNCHANGED results
OSpec == OInit /\ [][Eval \/ Write]_<<ci, results>>
=============================================================================
