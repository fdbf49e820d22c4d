---------------------------- MODULE SamplerRun -----------------------------
(* Complete runs of the real samplers on a likelihood that is (almost) constant on cells, recorded as cell numbers.

   Parameters are the sequence T.kinds as in SamplerEval; every event gives the cells of all non-constraint
   parameters (0 for the others).  Events: "eval" one evaluation of the likelihood; "row" a row of the posterior with
   its log likelihood (rounded) and whether its log prior is that of the point; "evid" the evidences, in units of 1e-6. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
Ev == T.events
Idx == 1..Len(T.kinds)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Like(c) == Sum([i \in Idx |-> IF T.kinds[i] = "con" THEN 0 ELSE T.w[i] * c[i]], Len(T.kinds))
Near(a, b, t) == a - b <= t /\ b - a <= t
Places(kind) == SelectSeq([j \in Idx |-> j], LAMBDA j : T.kinds[j] = kind)
Why(i) == LET e == Ev[i] IN
  CASE e.k = "eval" ->
        IF \E j \in Idx : T.kinds[j] = "fixed" /\ e.c[j] # T.fix[j] THEN "likelihood evaluated with another value of a fixed parameter"
        ELSE IF T.nested /\ \E j \in Idx : T.kinds[j] = "free" /\ ~(T.lo[j] <= e.c[j] /\ e.c[j] <= T.hi[j]) THEN "likelihood of a nested sampler evaluated outside of the prior"
        ELSE IF T.nested /\ e.excluded THEN "likelihood evaluated at a point excluded by a constraint"
        ELSE "ok"
    [] e.k = "row" ->
        IF \E j \in Idx : T.kinds[j] = "fixed" /\ e.c[j] # T.fix[j] THEN "posterior row with another value of a fixed parameter"
        ELSE IF \E j \in Idx : T.kinds[j] = "free" /\ ~(T.lo[j] <= e.c[j] /\ e.c[j] <= T.hi[j]) THEN "posterior row outside of the prior"
        ELSE IF e.excluded THEN "posterior row at a point excluded by a constraint"
        ELSE IF T.haslogl /\ e.logl # Like(e.c) + (IF T.ratio THEN T.noise ELSE 0) THEN "log likelihood of another point"
        ELSE IF ~e.logp THEN "log prior of another point"
        ELSE IF ~e.seen THEN "posterior row that was never evaluated"
        ELSE "ok"
    [] e.k = "nrow" ->
        IF e.logl # Like(e.c) + (IF T.ratio THEN T.noise ELSE 0) THEN "log likelihood of another point in the nested samples"
        ELSE "ok"
    [] e.k = "evid" ->
        IF ~Near(e.noise, -1000000 * T.noise, 2) THEN "noise evidence"
        ELSE IF T.nested /\ ~Near(e.z, e.bf + e.noise, 20) THEN "evidence is not Bayes factor plus noise evidence"
        ELSE IF e.rows <= 0 THEN "no samples"
        ELSE "ok"
    [] e.k = "keys" ->
        IF e.search # Places("free") THEN "search parameters"
        ELSE IF e.fixed # Places("fixed") THEN "fixed parameters"
        ELSE IF e.cons # Places("con") THEN "constraint parameters"
        ELSE "ok"
Init == tr \in 1..Len(Traces) /\ l = 1
Next == l <= Len(Ev) /\ Why(l) = "ok" /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Next]_<<tr, l>>
Report == IF l > Len(Ev) THEN PrintT("@@K " \o ToJson(tr))
          ELSE (Why(l) # "ok" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l, why |-> Why(l), e |-> Ev[l]])))
=============================================================================
