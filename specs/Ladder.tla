------------------------------- MODULE Ladder -------------------------------
(* Temperature ladders recorded while a parallel-tempering sampler adapts them: inverse temperatures
   in units of 2e-9, coldest first, one sequence per ensemble column. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
One == 500000000
T == Traces[tr]
Ev == T.events
\* chains at every temperature: each column is a ladder of its own
LadderOk(b, first) ==
  /\ Len(b) = T.nt
  /\ b[1] = One
  /\ \A i \in 1..(T.nt - 1) : b[i] > b[i + 1]
  /\ b[T.nt] >= 0
  /\ b[T.nt] = first[T.nt]
Why(i) == LET e == Ev[i] IN
  IF \E c \in 1..Len(e.b) : ~LadderOk(e.b[c], Ev[1].b[c]) THEN "ladder not ordered between fixed ends"
  ELSE IF Len(e.b) # (IF T.pte THEN T.ne ELSE 1) THEN "wrong number of ladders"
  ELSE IF e.zero # T.ne \/ e.hot # (T.nt - 1) * (IF T.pte THEN T.ne ELSE 1) THEN "wrong number of chains at zero temperature"
  ELSE IF i > 1 /\ Ev[i - 1].adaptend = 1 /\ e.b # Ev[i - 1].b THEN "ladder changed after adaptation ended"
  ELSE "ok"
Init == tr \in 1..Len(Traces) /\ l = 1
Step == l <= Len(Ev) /\ Why(l) = "ok" /\ l' = l + 1 /\ UNCHANGED tr
Next == Step
TraceSpec == Init /\ [][Next]_<<tr, l>>
Report == IF l > Len(Ev) THEN PrintT("@@K " \o ToJson(tr))
          ELSE (Why(l) # "ok" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l, why |-> Why(l)])))
=============================================================================
