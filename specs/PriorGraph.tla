---------------------------- MODULE PriorGraph ----------------------------
(* Every dependency graph of a conditional prior dictionary, every insertion order, every key
   permutation.  The state is one dictionary; a behaviour is: build it, then make one request.
   The specification predicts for each request what must come back.

   Widths shrink by 1000 per level of depth, so that a value computed from a parent's value of
   another draw falls outside the predicted support. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANTS KeySeq, Missing, FixedChoices, CondKinds, MaxEdges,
          MinDepth,     \* some key has at least that many ancestors in a row
          Orders,       \* the insertion orders to consider, {} for all of them
          Below    \* TRUE: every key depends on earlier ones only (all acyclic graphs up to renaming)
Keys == {KeySeq[i] : i \in 1..Len(KeySeq)}

VARIABLES deps, kind, order, out
vars == <<deps, kind, order, out>>

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]}
Idx(k) == CHOOSE i \in 1..Len(KeySeq) : KeySeq[i] = k

RECURSIVE Grow(_, _, _)
Grow(d, K, S) == LET T == S \cup {k \in K : d[k] \subseteq S} IN IF T = S THEN S ELSE Grow(d, K, T)
Res(d, K) == Grow(d, K, {})
Resolvable(d, K) == Res(d, K) = K

RECURSIVE Depth(_, _)
Depth(d, k) == IF d[k] = {} THEN 0
               ELSE 1 + (LET m == {Depth(d, j) : j \in d[k]} IN CHOOSE x \in m : \A y \in m : y <= x)
Pow(n) == IF Len(KeySeq) > 4 THEN 10^n ELSE CASE n = 0 -> 1 [] n = 1 -> 100 [] n = 2 -> 10000 [] n = 3 -> 1000000
IsFixed(k) == kind[k] \in {"D", "CD"}
W(k) == IF IsFixed(k) THEN 0 ELSE 4 * Pow((Cardinality(Keys) - 1) - Depth(deps, k))
Lo(k) == 1000 * Idx(k) + 17

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})

RECURSIVE Val(_, _)
Val(th, k) == SumF([j \in deps[k] |-> Val(th, j)], deps[k]) + Lo(k) + (W(k) \div 4) * (IF IsFixed(k) THEN 0 ELSE th[k])

Th1 == [k \in Keys |-> (Idx(k) % 3) + 1]
Th2 == [k \in Keys |-> ((Idx(k) + 1) % 3) + 1]
Free == {k \in Keys : ~IsFixed(k)}
Fix == Keys \ Free
ok == Resolvable(deps, Keys)
\* a request for a subset: the fixed keys are always available
SubsetOk(S) == LET K == S \cup Fix IN Resolvable(deps, K)
Full(d) == [k \in Keys |-> d[k]]

Entry(k) == [k |-> k, t |-> kind[k], lo |-> Lo(k), w |-> IF ok THEN W(k) ELSE 8, deps |-> SetToSeq(deps[k])]

Init ==
  /\ order \in (IF Orders = {} THEN Perms(Keys) ELSE Orders)
  /\ deps \in (IF Below THEN {[k \in Keys |-> {j \in Keys : <<k, j>> \in e}] : e \in SUBSET {p \in Keys \X Keys : Idx(p[2]) < Idx(p[1])}}
                        ELSE [Keys -> SUBSET (Keys \cup Missing)])
  /\ \A k \in Keys : k \notin deps[k]
  /\ SumF([k \in Keys |-> Cardinality(deps[k])], Keys) <= MaxEdges
  /\ (MinDepth > 0 => \E k \in Keys : Depth(deps, k) >= MinDepth)
  /\ kind \in [Keys -> {"U", "D"} \cup CondKinds]
  /\ \A k \in Keys : (deps[k] = {} <=> kind[k] \in {"U", "D"})
  /\ Cardinality({k \in Keys : kind[k] \in {"D", "CD"}}) \in FixedChoices
  /\ \E k \in Keys : kind[k] \notin {"D", "CD"}
  /\ out = [req |-> "new"]

Requests == {"rescale", "prob", "subset", "sample"}
Line(th, ks) == [i \in 1..Len(ks) |-> [k |-> ks[i], q |-> th[ks[i]], v |-> Val(th, ks[i])]]
Answer(req) ==
  CASE ~ok -> <<>>
    [] req = "rescale" -> LET all == SetToSeq(Perms(Free)) IN
                              [p \in 1..Len(all) |-> Line(IF p % 2 = 0 THEN Th1 ELSE Th2, all[p])]
    [] req = "prob" -> << Line(Th1, order), Line(Th2, Reverse(order)), Line(Th2, SetToSeq(Free)), Line(Th1, Reverse(SetToSeq(Free))) >>
    [] OTHER -> <<>>
Next == /\ out.req = "new"
        /\ out' = [req |-> "all", ok |-> ok, dict |-> [i \in 1..Len(order) |-> Entry(order[i])],
                   rescale |-> Answer("rescale"), points |-> Answer("prob"),
                   subsets |-> LET all == SetToSeq(SUBSET Keys) IN
                        [i \in 1..Len(all) |-> [s |-> SetToSeq(all[i]), ok |-> SubsetOk(all[i])]]]
        /\ UNCHANGED <<deps, kind, order>>

\* design-level: what resolution must satisfy
NotResolvedMeansCycleOrMissing ==
  ~ok => LET U == Keys \ Res(deps, Keys) IN \A k \in U : \E j \in deps[k] : j \notin Keys \/ j \in U
ValueInConditionalSupport ==
  ok => \A k \in Keys : LET m == SumF([j \in deps[k] |-> Val(Th1, j)], deps[k]) IN
            Val(Th1, k) - m - Lo(k) >= 0 /\ Val(Th1, k) - m - Lo(k) <= W(k)
OrderIndependent ==    \* the answer does not depend on the request order
  out.req = "all" /\ ok => \A i, j \in 1..Len(out.rescale) : (i - j) % 2 = 0 =>
        {<<x.k, x.v>> : x \in Range(out.rescale[i])} = {<<x.k, x.v>> : x \in Range(out.rescale[j])}
Emit == out.req = "all" => PrintT("@@E " \o ToJson(out))

\* ---- validation of recorded draws: every value lies in the support given the others of its draw ----
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE tr
DrawOk(t, d) == \A i \in 1..Len(t.dict) :
   LET e == t.dict[i]
       m == SumF([j \in 1..Len(e.deps) |-> d[e.deps[j]]], 1..Len(e.deps))
       x == d[e.k] - m - e.lo IN
   e.k \in DOMAIN d /\ x >= -Len(e.deps) /\ x <= e.w + Len(e.deps)
FirstBad(t) == {i \in 1..Len(t.events) : ~(DOMAIN t.events[i] = {t.dict[n].k : n \in 1..Len(t.dict)} /\ DrawOk(t, t.events[i]))}
Spec2 == Init /\ tr = 0 /\ [][Next /\ UNCHANGED tr]_<<vars, tr>>
TInit == tr = 0 /\ deps = 0 /\ kind = 0 /\ order = 0 /\ out = 0
TNext == /\ tr < Len(Traces) /\ tr' = tr + 1 /\ UNCHANGED vars
         /\ LET b == FirstBad(Traces[tr + 1]) IN
              IF b = {} THEN PrintT("@@K " \o ToJson(tr + 1))
              ELSE PrintT("@@B " \o ToJson([tr |-> tr + 1, l |-> CHOOSE x \in b : TRUE]))
TraceSpec == TInit /\ [][TNext]_<<vars, tr>>
=============================================================================
