----------------------------- MODULE PriorDict -----------------------------
(* A (conditional) prior dictionary as a state machine.

   The abstract state is the content of the dictionary alone: which key holds which prior, in
   insertion order. Everything a user can observe (key lists, resolvability, rescaled points,
   densities) is an operator of that state, i.e. history-independence is built in: an
   implementation whose observations differ after some history is not this machine.

   A prior is a record [t, lo, w, deps]:
     "U"   uniform on [lo, lo+w]
     "D"   delta function at lo
     "CU"  uniform on [m+lo, m+lo+w] with m the sum of the values of the keys in deps
     "CD"  delta function at m+lo
   w is a multiple of 4 and unit-cube coordinates are quarters, so all values are integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Functions

CONSTANTS Keys,      \* set of key names
          KeySeq,    \* the same as a sequence, fixes the unit-cube coordinate of every key
          Entries,   \* priors that can be assigned
          Ops,       \* operations allowed, subset of {"set","del","update","pop","copy","clear","setdefault"}
          Inits,     \* set of initial contents: sequences of <<key, prior>>
          K          \* number of operations in a behaviour

VARIABLES D,         \* [subset of Keys -> prior]
          order,     \* insertion order
          hist       \* operations done, each with the predicted observation

vars == <<D, order, hist>>

Idx(k) == CHOOSE i \in 1..Len(KeySeq) : KeySeq[i] = k
Theta1(k) == (Idx(k) % 3) + 1                 \* 2,3,1,2,...  quarters
Theta2(k) == ((Idx(k) + 1) % 3) + 1

DepsOf(d, k) == d[k].deps
RECURSIVE ResolvedFrom(_, _)
ResolvedFrom(d, S) ==
  LET T == {k \in DOMAIN d : DepsOf(d, k) \subseteq S} \cup S
  IN IF T = S THEN S ELSE ResolvedFrom(d, T)
Resolved(d) == ResolvedFrom(d, {})
Resolvable(d) == Resolved(d) = DOMAIN d

IsFixed(e) == e.t \in {"D", "CD"}
Free(d) == {k \in DOMAIN d : ~IsFixed(d[k])}
Fixed(d) == {k \in DOMAIN d : IsFixed(d[k])}

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* value of every key given the unit-cube coordinate th[k] (quarters)
RECURSIVE Val(_, _, _)
Val(d, th, k) ==
  LET e == d[k]
      m == SumOver([j \in e.deps |-> Val(d, th, j)], e.deps)
  IN m + e.lo + (IF IsFixed(e) THEN 0 ELSE (e.w \div 4) * th[k])

RECURSIVE ProdOver(_, _)
ProdOver(f, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] * ProdOver(f, S \ {x})

\* Joint density of the free keys at the point with coordinates th: 1 / Dens(d)
Dens(d) == ProdOver([k \in Free(d) |-> d[k].w], Free(d))

RestrictSeq(s, S) == SelectSeq(s, LAMBDA x : x \in S)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotate(s) == IF s = <<>> THEN <<>> ELSE Append(Tail(s), Head(s))

RescaleIn(d, th, ks) == [i \in 1..Len(ks) |-> [k |-> ks[i], q |-> th[ks[i]], v |-> Val(d, th, ks[i])]]

ThetaFn1 == [k \in Keys |-> Theta1(k)]
ThetaFn2 == [k \in Keys |-> Theta2(k)]

Point(d, th) == LET ks == RestrictSeq(order', DOMAIN d) IN
                [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> Val(d, th, ks[i])]]

EntryJ(e) == [t |-> e.t, lo |-> e.lo, w |-> e.w, deps |-> SetToSeq(e.deps)]

ObsOf(d, ord) ==
  LET fr == RestrictSeq(ord, Free(d))
      fx == RestrictSeq(ord, Fixed(d)) IN
  [keys |-> ord, free |-> fr, fixed |-> fx,
   resolvable |-> Resolvable(d),
   content |-> [i \in 1..Len(ord) |-> [k |-> ord[i], e |-> EntryJ(d[ord[i]])]],
   rescale |-> IF Resolvable(d) /\ fr # <<>>
               THEN << RescaleIn(d, ThetaFn1, fr), RescaleIn(d, ThetaFn2, Rev(fr)),
                       RescaleIn(d, ThetaFn1, Rotate(fr)) >>
               ELSE <<>>,
   point |-> IF Resolvable(d) THEN RescaleIn(d, ThetaFn2, ord) ELSE <<>>,
   dens |-> IF Resolvable(d) THEN Dens(d) ELSE 0]

Rec(op, args) == hist' = Append(hist, [op |-> op, args |-> args, obs |-> ObsOf(D', order')])

Put(d, k, e) == [x \in (DOMAIN d) \cup {k} |-> IF x = k THEN e ELSE d[x]]
Drop(d, k) == [x \in (DOMAIN d) \ {k} |-> d[x]]
PutOrder(o, d, k) == IF k \in DOMAIN d THEN o ELSE Append(o, k)

Allowed(k, e) == k \notin e.deps

RECURSIVE FromSeq(_)
FromSeq(s) == IF s = <<>> THEN [x \in {} |-> 0] ELSE Put(FromSeq(Front(s)), Last(s)[1], Last(s)[2])

Init == \E i \in Inits :
          /\ D = FromSeq(i)
          /\ order = [n \in 1..Len(i) |-> i[n][1]]
          /\ hist = << [op |-> "new", args |-> [n \in 1..Len(i) |-> [k |-> i[n][1], e |-> EntryJ(i[n][2])]],
                        obs |-> ObsOf(FromSeq(i), [n \in 1..Len(i) |-> i[n][1]])] >>

NoEntry == [t |-> "none"]
KeyOnly(op) == op \in {"del", "pop"}
NoArgs(op) == op \in {"copy", "clear"}

\* what can be done next: <<operation, key, prior>>
Acts ==
  LET Assign == {<<op, k, e>> : op \in Ops \cap {"set", "update", "setdefault"}, k \in Keys, e \in Entries} IN
     {c \in Assign : Allowed(c[2], c[3]) /\ ~(c[1] = "set" /\ c[2] \in DOMAIN D /\ D[c[2]] = c[3])}
     \cup {<<op, k, NoEntry>> : op \in Ops \cap {"del", "pop"}, k \in DOMAIN D}
     \cup {<<op, "", NoEntry>> : op \in (Ops \cap {"copy"}) \cup (IF order # <<>> THEN Ops \cap {"clear"} ELSE {})}

Do(c) ==
  LET op == c[1] k == c[2] e == c[3] IN
  /\ D' = CASE op \in {"set", "update"} -> Put(D, k, e)
            [] op = "setdefault" -> (IF k \in DOMAIN D THEN D ELSE Put(D, k, e))
            [] op \in {"del", "pop"} -> Drop(D, k)
            [] op = "clear" -> [x \in {} |-> 0]
            [] op = "copy" -> D
  /\ order' = CASE op \in {"set", "update", "setdefault"} -> PutOrder(order, D, k)
                [] op \in {"del", "pop"} -> SelectSeq(order, LAMBDA x : x # k)
                [] op = "clear" -> <<>>
                [] op = "copy" -> order
  /\ Rec(op, IF NoArgs(op) THEN <<>> ELSE IF KeyOnly(op) THEN <<[k |-> k]>> ELSE <<[k |-> k, e |-> EntryJ(e)]>>)

Next == Len(hist) < K + 1 /\ \E c \in Acts : Do(c)
\* one successor per step, for simulation
SimNext == Len(hist) < K + 1 /\ \E c \in {RandomElement(Acts)} : Do(c)

Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

\* ---- design-level invariants -------------------------------------------------
TypeOK == /\ DOMAIN D = Range(order) /\ Len(order) = Cardinality(DOMAIN D)
\* free and fixed keys partition the keys
Partition == /\ Free(D) \cup Fixed(D) = DOMAIN D /\ Free(D) \cap Fixed(D) = {}
\* dependencies missing or circular exactly when not resolvable
CycleOrMissing ==
  ~Resolvable(D) => \E k \in DOMAIN D : \/ ~(D[k].deps \subseteq DOMAIN D)
                                        \/ \E j \in D[k].deps : j \in DOMAIN D /\ j \notin Resolved(D)
\* rescaling is inverse-consistent: the point obtained lies inside its support given its own dependencies
InSupport == Resolvable(D) => \A k \in DOMAIN D :
     LET m == SumOver([j \in D[k].deps |-> Val(D, ThetaFn1, j)], D[k].deps) IN
       /\ Val(D, ThetaFn1, k) >= m + D[k].lo
       /\ Val(D, ThetaFn1, k) <= m + D[k].lo + D[k].w

Emit == Len(hist) = K + 1 => PrintT("@@E " \o ToJson(hist))
=============================================================================
