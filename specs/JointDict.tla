----------------------------- MODULE JointDict -----------------------------
(* Two joint distributions A over <<p, q>> and B over <<r, s>> and an independent (or conditional)
   parameter x in one prior dictionary: every insertion order, requests in permuted orders.  Values of
   a key never depend on either order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Keys, Conditional, Requests, OutOf
VARIABLES order, ask, out
vars == <<order, ask, out>>
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
TH == [p |-> 1, q |-> 3, r |-> 2, s |-> 1, x |-> 3]
\* the same map as in module JointPrior, for two parameters
J(i, a, b) == 1000 * i + i * (IF i = 1 THEN a ELSE b) + a + b
Val(k) == CASE k = "p" -> J(1, TH.p, TH.q) [] k = "q" -> J(2, TH.p, TH.q)
            [] k = "r" -> J(1, TH.r, TH.s) [] k = "s" -> J(2, TH.r, TH.s)
            [] k = "x" -> (IF Conditional THEN J(1, TH.p, TH.q) ELSE 0) + 10000 + TH.x
Pt == [p |-> 2, q |-> 5, r |-> 1, s |-> 7, x |-> 10002 + (IF Conditional THEN 2 ELSE 0)]
Ln(a, b) == 3 * a + 5 * b + a * b
\* minus ln density of the joint parameters (x contributes the constant width 4)
Minus(k) == IF k = "none" THEN Ln(Pt.p, Pt.q) + Ln(Pt.r, Pt.s) ELSE -1
Init == /\ order \in Perms(Keys)
        /\ ask \in Perms(Keys)
        /\ (\E i \in 1..Len(ask) : ask[i] = order[i]) \/ TRUE
        /\ out = <<>>
Hash(f) == LET n(k) == CASE k = "p" -> 1 [] k = "q" -> 2 [] k = "r" -> 3 [] k = "s" -> 4 [] k = "x" -> 5 IN
           n(f[1]) + 3 * n(f[2]) + 7 * n(f[3]) + (IF Len(f) > 3 THEN 11 * n(f[4]) ELSE 0)
Next == /\ out = <<>>
        /\ (Hash(order) * 5 + Hash(ask)) % OutOf < Requests
        /\ out' = << [order |-> order, ask |-> ask, th |-> [i \in 1..Len(ask) |-> TH[ask[i]]],
                      cond |-> Conditional,
                      vals |-> [i \in 1..Len(ask) |-> Val(ask[i])],
                      pt |-> [i \in 1..Len(ask) |-> Pt[ask[i]]],
                      minus |-> Minus("none")] >>
        /\ UNCHANGED <<order, ask>>
Spec == Init /\ [][Next]_vars
\* the answer for a key is the same whatever the orders
KeyDetermines == out # <<>> => \A i \in 1..Len(ask) : out[1].vals[i] = Val(ask[i])
Emit == out # <<>> => PrintT("@@E " \o ToJson(out))
=============================================================================
