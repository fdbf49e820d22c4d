----------------------------- MODULE ResumeTrace -----------------------------
(* What was found on disk after every life of a real run, and its result. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, prev, bad
vars == <<tr, l, prev, bad>>
T == Traces[tr]
Ev == T.events[l]
Rng(s) == {s[i] : i \in 1..Len(s)}
Empty == [has |-> FALSE, dead |-> <<>>, live |-> <<>>, t |-> 0, ncall |-> 0, it |-> 1]
Start == IF Ev.resume /\ Ev.damage = "no" /\ prev.has THEN prev ELSE Empty
Resumed == Start.has
D == Ev.disk
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Same(a, b) == a.has = b.has /\ a.dead = b.dead /\ a.live = b.live /\ a.t = b.t /\ a.it = b.it
Why ==
  IF Ev.problem # "" THEN Ev.problem
  ELSE IF ~Ev.wrote THEN
     IF Ev.outcome = "done" THEN "a finished run left no checkpoint"
     ELSE IF Ev.outcome = "signal" /\ (Resumed \/ Ev.phase # "init") THEN "no checkpoint was written at a signal"
     ELSE IF Ev.damage = "no" /\ ~Same(D, prev) THEN "the checkpoint has changed without being written" ELSE ""
  ELSE IF D.it # Len(D.dead) + 1 THEN "the number of iterations is not the number of dead points"
  ELSE IF Cardinality(Rng(D.dead)) # Len(D.dead) \/ Cardinality(Rng(D.live)) # Len(D.live) \/ Rng(D.dead) \cap Rng(D.live) # {} THEN "a point occurs twice"
  ELSE IF Len(D.live) # T.nlive THEN "a live point is lost"
  ELSE IF ~Prefix(Start.dead, D.dead) THEN "the dead points of the last checkpoint are lost or altered"
  ELSE IF ~(Rng(Start.live) \subseteq Rng(D.dead) \cup Rng(D.live)) THEN "a live point of the last checkpoint is lost"
  ELSE IF ~Resumed /\ (Rng(prev.dead) \cup Rng(prev.live)) \cap (Rng(D.dead) \cup Rng(D.live)) # {} THEN "a fresh run contains points of an earlier one"
  ELSE IF D.t # -1 /\ (D.t < Start.t + Ev.lo \/ D.t > Start.t + Ev.hi) THEN "the sampling time is wrong"
  ELSE IF D.ncall < Start.ncall THEN "the number of likelihood evaluations has decreased"
  ELSE IF Ev.outcome = "done" THEN
     IF Rng(Ev.result.ids) # Rng(D.dead) \cup Rng(D.live) \/ Len(Ev.result.ids) # Len(D.dead) + Len(D.live) THEN "the result does not consist of all points"
     ELSE IF SubSeq(Ev.result.ids, 1, Len(D.dead)) # D.dead THEN "the points of the result are in another order"
     ELSE IF Ev.result.t < Start.t + Ev.lo \/ Ev.result.t > Start.t + Ev.rhi THEN "the sampling time of the result is wrong"
     ELSE IF Ev.result.ncall # D.ncall THEN "the number of likelihood evaluations of the result is wrong" ELSE ""
  ELSE ""
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ prev = Empty
Step == bad = "" /\ l <= Len(T.events) /\ bad' = Why /\ prev' = D /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == /\ bad # "" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l - 1, why |-> bad]))
          /\ (bad = "" /\ l = Len(T.events) + 1) => PrintT("@@K " \o ToString(tr))
=============================================================================
