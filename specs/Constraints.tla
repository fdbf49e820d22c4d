---------------------------- MODULE Constraints ----------------------------
(* Prior dictionaries with constraints, as a state machine over their content.

   Two uniform parameters a in [0, wa], b in [ob, ob + wb] (or, conditionally, b in [a, a + wb]), and
   constraints on the derived quantities s = a + b, d = b - a with integer bounds.  Each unit cell of
   the prior's rectangle is cut by its two diagonals into four triangles; with integer bounds a
   constraint contains a triangle completely or not at all, so the allowed region is an exactly known
   set of triangles.  Its area is count/4, and the density is 4/count inside and 0 outside.

   A point is the centroid of a triangle, in sixths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANTS Widths,        \* possible widths of a and b
          Bounds,        \* possible <<name, lo, hi>> constraints
          K

VARIABLES wa, wb, cond, cons, hist
vars == <<wa, wb, cond, cons, hist>>

Names == {"s", "d"}
None == <<>>
\* triangle t of cell (i, j): centroid offset in sixths
Off == << <<3, 1>>, <<3, 5>>, <<1, 3>>, <<5, 3>> >>
Tri == {<<i, j, t>> : i \in 0..(wa - 1), j \in 0..(wb - 1), t \in 1..4}
PtA(x) == 6 * x[1] + Off[x[3]][1]
PtB(x) == 6 * x[2] + Off[x[3]][2] + (IF cond THEN PtA(x) ELSE 0)
S6(x) == PtA(x) + PtB(x)
D6(x) == PtB(x) - PtA(x)
Sat(c, v6) == c = None \/ (6 * c[1] < v6 /\ v6 < 6 * c[2])
Allowed(x) == Sat(cons.s, S6(x)) /\ Sat(cons.d, D6(x))
AllowedSet == {x \in Tri : Allowed(x)}

\* a handful of points, inside and outside, chosen deterministically
Rank(x) == (x[1] * 7 + x[2] * 11 + x[3] * 5) % 13
PointRec(x) == [a |-> PtA(x), b |-> PtB(x), ok |-> Allowed(x)]
Obs == LET tri == SetToSeq(Tri) IN
       [wa |-> wa, wb |-> wb, cond |-> cond, cons |-> cons, count |-> Cardinality(AllowedSet), total |-> Cardinality(Tri),
        points |-> [i \in 1..Len(tri) |-> PointRec(tri[i])]]
ObsOf(w1, w2, cd, cs) == [wa |-> w1, wb |-> w2, cond |-> cd, cons |-> cs]

\* with the conditional form s = 2a + u is not aligned with the triangles
Aligned(cd, cs) == cd => cs.s = None

Init == /\ wa \in Widths /\ wb \in Widths /\ cond \in BOOLEAN
        /\ cons \in [Names -> {None} \cup {<<c[2], c[3]>> : c \in Bounds}]
        /\ \A n \in Names : IF cons[n] = None THEN TRUE ELSE <<n, cons[n][1], cons[n][2]>> \in Bounds
        /\ Aligned(cond, cons)
        /\ Cardinality(AllowedSet) * 12 >= Cardinality(Tri)
        /\ hist = << >>

Acts == {<<"width", w, "a">> : w \in Widths} \cup {<<"width", w, "b">> : w \in Widths}
        \cup {<<"cons", c, c[1]>> : c \in Bounds} \cup {<<"drop", 0, n>> : n \in {n \in Names : cons[n] # None}}
        \cup {<<"copy", 0, "">>}
Do(c) ==
  /\ wa' = (IF c[1] = "width" /\ c[3] = "a" THEN c[2] ELSE wa)
  /\ wb' = (IF c[1] = "width" /\ c[3] = "b" THEN c[2] ELSE wb)
  /\ cons' = (IF c[1] = "cons" THEN [cons EXCEPT ![c[3]] = <<c[2][2], c[2][3]>>]
              ELSE IF c[1] = "drop" THEN [cons EXCEPT ![c[3]] = None] ELSE cons)
  /\ UNCHANGED cond
  /\ Aligned(cond, cons')
  /\ (Cardinality(AllowedSet) * 12 >= Cardinality(Tri))'
  /\ hist' = Append(hist, [op |-> c[1], key |-> c[3], obs |-> Obs'])
First == hist = <<>> /\ UNCHANGED <<wa, wb, cond, cons>> /\ hist' = << [op |-> "new", key |-> "", obs |-> Obs] >>
Next == First \/ (hist # <<>> /\ Len(hist) < K /\ \E c \in Acts : Do(c))
SimNext == First \/ (hist # <<>> /\ Len(hist) < K /\ \E c \in {RandomElement({a \in Acts : ENABLED Do(a)})} : Do(c))
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

\* tightening a constraint never adds to the allowed region; no constraint allows everything
Everything == cons = [n \in Names |-> None] => AllowedSet = Tri
ClosedForm ==   \* the counted area of {s < hi} agrees with the closed form for the rectangle
  (~cond /\ cons.d = None /\ cons.s # None) =>
     LET P(x) == IF x > 0 THEN x * x ELSE 0
         A2(x) == P(x) - P(x - wa) - P(x - wb) + P(x - wa - wb) IN
     Cardinality(AllowedSet) = 2 * (A2(cons.s[2]) - A2(cons.s[1]))
Emit == (hist # <<>> /\ Len(hist) = K) => PrintT("@@E " \o ToJson(hist))

\* ---- recorded draws ----------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE tr
\* an event is the number of draws that fell into every triangle <<i, j, t, n>> (boundaries do not occur)
TInit == tr = 0 /\ wa = 0 /\ wb = 0 /\ cond = FALSE /\ cons = 0 /\ hist = 0
Rep(x) == [tr |-> tr', l |-> 1, why |-> x]
TNext == /\ tr < Len(Traces) /\ tr' = tr + 1
         /\ LET t == Traces[tr + 1] IN
            /\ wa' = t.wa /\ wb' = t.wb /\ cond' = t.cond
            /\ cons' = t.cons /\ hist' = 0
            /\ LET hit == {<<e[1], e[2], e[3]>> : e \in Range(t.events)} IN
               IF t.outside > 0 THEN PrintT("@@B " \o ToJson(Rep("draws outside the priors")))
               ELSE IF ~(hit \subseteq AllowedSet') THEN PrintT("@@B " \o ToJson(Rep("draws violate a constraint")))
               ELSE IF t.n # t.asked THEN PrintT("@@B " \o ToJson(Rep("wrong number of draws")))
               ELSE IF t.complete /\ hit # AllowedSet' THEN PrintT("@@B " \o ToJson(Rep("part of the allowed region is never drawn")))
               ELSE PrintT("@@K " \o ToJson(tr'))
TraceSpec == TInit /\ [][TNext]_<<vars, tr>>
SpecE == Init /\ tr = 0 /\ [][Next /\ UNCHANGED tr]_<<vars, tr>>
SimSpecE == Init /\ tr = 0 /\ [][SimNext /\ UNCHANGED tr]_<<vars, tr>>
=============================================================================
