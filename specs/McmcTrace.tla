----------------------------- MODULE McmcTrace -----------------------------
(* What was found in the checkpoint after every life of a real Bilby-MCMC run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, prev, bad
vars == <<tr, l, prev, bad>>
T == Traces[tr]
Ev == T.events[l]
Empty == [has |-> FALSE, s |-> <<>>, t |-> 0, swaps |-> 0]
Usable == Ev.resume /\ Ev.damage = "no" /\ prev.has
Start == IF Usable THEN prev ELSE Empty
D == Ev.disk
Rng(s) == {s[i] : i \in 1..Len(s)}
All(d) == UNION {Rng(d.s[i].chain) : i \in 1..Len(d.s)}
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Grown(a, b) == a.T = b.T /\ a.E = b.E /\ Prefix(a.chain, b.chain)
More(d, k) == \A i \in 1..Len(d.s) : Len(d.s[i].chain) >= k + (IF i <= Len(Start.s) THEN Len(Start.s[i].chain) ELSE 1)
Why ==
  IF Ev.problem # "" THEN Ev.problem
  ELSE IF Usable /\ Ev.changed THEN
     IF Ev.outcome # "refused" THEN "a checkpoint with other parallel-tempering settings is not refused"
     ELSE IF Ev.wrote \/ D # prev THEN "a refused checkpoint was altered" ELSE ""
  ELSE IF Ev.outcome = "refused" THEN "a checkpoint with the same parallel-tempering settings is refused"
  ELSE IF ~Ev.wrote THEN
     IF Ev.outcome = "done" THEN "a finished run left no checkpoint"
     ELSE IF Ev.outcome = "signal" /\ Usable THEN "no checkpoint was written at a signal"
     ELSE IF Ev.damage = "no" /\ D # prev THEN "the checkpoint has changed without being written" ELSE ""
  ELSE IF Usable /\ Len(D.s) # Len(prev.s) THEN "the number of samplers has changed"
  ELSE IF Usable /\ \E i \in 1..Len(D.s) : ~Grown(prev.s[i], D.s[i]) THEN "steps of the last checkpoint are lost or altered"
  ELSE IF Usable /\ \E i \in 1..Len(D.s) : D.s[i].acc < prev.s[i].acc \/ D.s[i].rej < prev.s[i].rej \/ D.s[i].pt < prev.s[i].pt THEN "the counts of accepted or rejected steps went back"
  ELSE IF Usable /\ D.swaps < prev.swaps THEN "the number of exchanges went back"
  ELSE IF Usable /\ Ev.first /\ (D.s # prev.s \/ D.swaps # prev.swaps) THEN "the state right after resuming is not that of the checkpoint"
  ELSE IF Usable /\ (D.swaps = prev.swaps \/ ~Ev.adapt) /\ \E i \in 1..Len(D.s) : D.s[i].beta # prev.s[i].beta THEN "the temperatures have changed without being adapted"
  ELSE IF ~Usable /\ All(prev) \cap All(D) # {} THEN "a fresh run contains steps of an earlier one"
  ELSE IF Ev.plain /\ \E i, j \in 1..Len(D.s) : Len(D.s[i].chain) - Len(D.s[j].chain) > l \/ (Ev.outcome = "done" /\ l = 1 /\ Len(D.s[i].chain) # Len(D.s[j].chain)) THEN "chains are of different lengths"
  ELSE IF D.t < Start.t + (IF More(D, 2) THEN Ev.lo ELSE 0) \/ D.t > Start.t + Ev.hi THEN "the sampling time is wrong"
  ELSE IF Ev.outcome = "done" /\ (Ev.rt # D.t) THEN "the sampling time of the result is not that of the run"
  ELSE IF Ev.outcome = "done" /\ Ev.steps # Len(D.s[1].chain) - 1 THEN "the number of steps of the result is wrong"
  ELSE ""
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ prev = Empty
Step == bad = "" /\ l <= Len(T.events) /\ bad' = Why /\ prev' = D /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == /\ bad # "" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l - 1, why |-> bad]))
          /\ (bad = "" /\ l = Len(T.events) + 1) => PrintT("@@K " \o ToString(tr))
=============================================================================
