---------------------------- MODULE ChainWindow ----------------------------
(* The burn-in rule based on the log posterior: the chain counts as burned in one step after the first
   window of 100 points whose mean log posterior is within ndim/2 of the maximum.  Recorded chains are
   checked: the reported index is the largest of the rules that apply. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE tr
RECURSIVE Sum(_, _, _)
Sum(s, a, b) == IF a > b THEN 0 ELSE s[a] + Sum(s, a + 1, b)
MaxOf(s) == LET RECURSIVE M(_, _)
                M(i, m) == IF i > Len(s) THEN m ELSE M(i + 1, IF s[i] > m THEN s[i] ELSE m) IN M(2, s[1])
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
\* windows ending at index i (from 0) that pass: 100 max - sum < 50 ndim
RECURSIVE FirstPass(_, _, _, _, _)
FirstPass(s, i, w, m, nd) ==   \* w = sum of s[i-98 .. i+1] (1-based end i+1)
  IF 100 * m - w < 50 * nd THEN i
  ELSE IF i + 1 >= Len(s) THEN -1
  ELSE FirstPass(s, i + 1, w + s[i + 2] - s[i - 98], m, nd)
Expected(t) ==
  LET s == t.logp
      z == IF Len(s) < 100 THEN -1 ELSE FirstPass(s, 99, Sum(s, 1, 100), MaxOf(s), t.ndim) IN
  MaxS({t.fd, t.prop, t.adapt, t.burn * t.tau} \cup (IF z >= 0 THEN {z + 1} ELSE {}))
Init == tr = 0
Next == /\ tr < Len(Traces) /\ tr' = tr + 1
        /\ LET t == Traces[tr'] e == Expected(t) IN
           IF \A i \in 1..Len(t.events) : t.events[i] = e THEN PrintT("@@K " \o ToJson(tr'))
           ELSE PrintT("@@B " \o ToJson([tr |-> tr', l |-> 1, expected |-> e, got |-> t.events]))
TraceSpec == Init /\ [][Next]_tr
=============================================================================
