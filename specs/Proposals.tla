----------------------------- MODULE Proposals -----------------------------
(* Proposals recorded from the real classes.  Parameter values are in units of 1e-6 of their scale;
   phases in units of 1e-6 pi.  Each event is one call: the current point, the proposed point, the point
   stored in the chain afterwards, the reported log factor and the one that detailed balance asks for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
Ev == T.events
N == Len(T.kinds)
Abs(x) == IF x < 0 THEN -x ELSE x
Rem(x, m) == x - m * (x \div m)
Near(a, b, tol) == Abs(a - b) <= tol
NearMod(a, b, m, tol) == LET d == Rem(a - b, m) IN d <= tol \/ m - d <= tol
Pi == 1000000
InRange(i, v) == T.lo[i] - 1 <= v /\ v <= T.hi[i] + 1
Signs == {-1, 1}
\* phase of the signal when only its combination with the polarisation is a parameter
Ph(p, s) == IF s.dphase THEN p[s.iphase] - s.sgn * p[s.ipsi] ELSE p[s.iphase]

KindOk(e) ==
  CASE T.kind = "uniform" -> \A i \in 1..N : T.proposed[i] /\ T.finite[i] => InRange(i, e.new[i]) /\ e.new[i] # e.cur[i]
    [] T.kind = "prior" -> \A i \in 1..N : T.proposed[i] => InRange(i, e.new[i]) /\ e.new[i] # e.cur[i]
    [] T.kind \in {"fixed", "adaptive", "fisher", "density"} -> TRUE
    [] T.kind = "jump" -> \A i \in 1..N : T.proposed[i] => NearMod(e.new[i], e.cur[i] + T.jump[i], T.wrap[i], 3) \/ NearMod(e.new[i], e.cur[i] - T.jump[i], T.wrap[i], 3)
    [] T.kind = "line" -> e.dev <= 5                       \* on a line given by points of the chain
    [] T.kind = "stretch" -> e.dev <= 5 /\ e.z >= 499990 /\ e.z <= 2000010
    [] T.kind = "phase" -> NearMod(e.new[T.s.iphase], e.cur[T.s.iphase] + Pi, 2 * Pi, 3)
    [] T.kind = "psi" -> NearMod(e.new[T.s.ipsi], e.cur[T.s.ipsi] + Pi \div 2, Pi, 3)
    [] T.kind = "phasepsi" -> NearMod(e.new[T.s.iphase], e.cur[T.s.iphase] + Pi, 2 * Pi, 3) /\ NearMod(e.new[T.s.ipsi], e.cur[T.s.ipsi] + Pi \div 2, Pi, 3)
    [] T.kind = "correlated" -> \/ NearMod(Ph(e.new, T.s) + e.new[T.s.ipsi], Ph(e.cur, T.s) + e.cur[T.s.ipsi], Pi, 4)
                                \/ NearMod(Ph(e.new, T.s) - e.new[T.s.ipsi], Ph(e.cur, T.s) - e.cur[T.s.ipsi], Pi, 4)
Why(i) == LET e == Ev[i] IN
  IF Len(e.new) # N THEN "parameters missing or added"
  ELSE IF e.after # e.cur THEN "the current point of the chain was changed"
  ELSE IF e.stored # 1 THEN "the stored points of the chain were changed"
  ELSE IF \E j \in 1..N : ~T.proposed[j] /\ e.new[j] # e.cur[j] THEN "a parameter outside of the subset was changed"
  ELSE IF e.lfzero = 1 /\ \E j \in 1..N : T.proposed[j] /\ T.kinds[j] # "none" /\ ~InRange(j, e.new[j]) THEN "outside of a periodic or reflective range"
  ELSE IF ~Near(e.lf, e.want, 20 + Abs(e.want) \div 100000) THEN "log factor is not that of the move"
  ELSE IF ~KindOk(e) THEN "not a move of this kind"
  ELSE "ok"
Init == tr \in 1..Len(Traces) /\ l = 1
Next == l <= Len(Ev) /\ Why(l) = "ok" /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Next]_<<tr, l>>
Report == IF l > Len(Ev) THEN PrintT("@@K " \o ToJson(tr))
          ELSE (Why(l) # "ok" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l, why |-> Why(l), e |-> Ev[l]])))
=============================================================================
