------------------------------- MODULE Cycle -------------------------------
(* The order in which a proposal cycle hands out its proposals: a fixed sequence, drawn with the
   weights, that repeats.  Weights are in units of 1e-4. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
Ev == T.events          \* index of the proposal handed out at each call
Period == T.period
Count(i) == Cardinality({j \in 1..Period : Ev[j] = i})
\* five standard deviations, rounded up: n p (1-p) bounded through squares
Far(i) == LET d == 100 * Count(i) - (T.weight[i] * Period) \div 100
              v == ((T.weight[i] * (10000 - T.weight[i])) \div 10000) * Period IN  \* 1e4 times the variance
          (d < 0 - 100 \/ d > 100) /\ d * d > 30 * v + 10000
Why(i) == IF Ev[i] < 1 \/ Ev[i] > Len(T.weight) THEN "not a proposal of the cycle"
          ELSE IF i > Period /\ Ev[i] # Ev[i - Period] THEN "the cycle does not repeat"
          ELSE IF i = 1 /\ T.weighted = 1 /\ \E j \in 1..Len(T.weight) : Far(j) THEN "not used in proportion to the weights"
          ELSE IF i = 1 /\ T.drawall = 1 /\ \E j \in 1..Len(T.weight) : Count(j) = 0 THEN "a proposal is never used"
          ELSE IF i = 1 /\ T.drawnone > 0 /\ Count(T.drawnone) > 0 THEN "a proposal of weight zero is used" ELSE "ok"
Init == tr \in 1..Len(Traces) /\ l = 1
Next == l <= Len(Ev) /\ Why(l) = "ok" /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Next]_<<tr, l>>
Report == IF l > Len(Ev) THEN PrintT("@@K " \o ToJson(tr))
          ELSE (Why(l) # "ok" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l, why |-> Why(l)])))
=============================================================================
