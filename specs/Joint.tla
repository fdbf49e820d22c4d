-------------------------------- MODULE Joint --------------------------------
(* Joint likelihoods: a collection of members (possibly joint themselves) over one set of parameters. The members here
   are linear in their parameters, so that their exact values are known. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, K
VARIABLES ms, par, hist
vars == <<ms, par, hist>>
Coef == << [p |-> 2], [p |-> 1, q |-> 3], [r |-> 5], [p |-> 7, q |-> 11, r |-> 13], [s |-> 17] >>
Noise == <<0, 4, 9, -2, 1>>
\* the values the members have before they are combined
First == << [p |-> 1], [p |-> 2, q |-> 3], [r |-> 4], [p |-> 5, q |-> 6, r |-> 7], [s |-> 8] >>
RECURSIVE SumOver(_, _), Merge(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(f, S \ {k})
Val(m, p) == SumOver([k \in DOMAIN Coef[m] |-> Coef[m][k] * p[k]], DOMAIN Coef[m])
\* later members override
Merge(p, s) == IF s = <<>> THEN p ELSE Merge(First[Head(s)] @@ p, Tail(s))
RECURSIVE Total(_, _), NoiseTotal(_)
Total(s, p) == IF s = <<>> THEN 0 ELSE Val(Head(s), p) + Total(Tail(s), p)
NoiseTotal(s) == IF s = <<>> THEN 0 ELSE Noise[Head(s)] + NoiseTotal(Tail(s))
O(op, x, y, z) == hist' = Append(hist, [op |-> op, x |-> x, y |-> y, z |-> z, par |-> par', ms |-> ms',
                                        total |-> Total(ms', par'), noise |-> NoiseTotal(ms')])
Keys == DOMAIN par
Set(k, v) == k \in Keys /\ par' = [par EXCEPT ![k] = v] /\ UNCHANGED ms /\ O("set", k, v, 0)
Upd(v) == par' = [k \in Keys |-> IF k \in {"p", "r"} THEN v ELSE par[k]] /\ UNCHANGED ms /\ O("update", 0, v, 0)
Repl(v) == par' = [k \in Keys |-> v + Cardinality({j \in Keys : j = "p" /\ k = "p"})] /\ UNCHANGED ms /\ O("replace", 0, v, 0)
\* through the dictionary of one of the members
Member(i, k, v) == k \in DOMAIN Coef[ms[i]] /\ par' = [par EXCEPT ![k] = v] /\ UNCHANGED ms /\ O("member", i, k, v)
\* other members are put in; in a group of their own if nest
Likes(s, nest) == ms' = s /\ par' = Merge(par, s) /\ O("likes", s, nest, 0)
\* the joint likelihood becomes a member of a new one, before or after m
Wrap(m, before) == ms' = (IF before THEN <<m>> \o ms ELSE Append(ms, m))
                   /\ par' = (IF before THEN par @@ First[m] ELSE First[m] @@ par) /\ O("wrap", m, before, 0)
Copy == UNCHANGED <<ms, par>> /\ O("copy", 0, 0, 0)
\* the likelihoods which were combined are changed afterwards
Original(m, v) == UNCHANGED <<ms, par>> /\ O("original", m, v, 0)
Starts == {<<1>>, <<1, 2>>, <<3, 2>>, <<2, 3, 4>>, <<5, 1>>, <<4, 4>>}
Init == ms \in Starts /\ par = Merge(<<>>, ms)
        /\ hist = <<[op |-> "init", x |-> ms, y |-> 0, z |-> 0, par |-> par, ms |-> ms, total |-> Total(ms, par), noise |-> NoiseTotal(ms)]>>
Names == {"p", "q", "r", "s"}
Next == Len(hist) < K /\
  (\/ \E k \in Names, v \in Vals : Set(k, v)
   \/ \E v \in Vals : Upd(v) \/ Repl(v)
   \/ \E i \in 1..Len(ms), k \in Names, v \in Vals : Member(i, k, v)
   \/ \E s \in {<<2>>, <<3, 1>>}, n \in BOOLEAN : Likes(s, n)
   \/ (Len(ms) < 5 /\ \E m \in {2, 5}, b \in BOOLEAN : Wrap(m, b))
   \/ Copy \/ \E m \in {1, 2}, v \in Vals : Original(m, v))
Pick(S) == RandomElement(S)
SimNext == Len(hist) < K /\
  \E c \in {Pick(1..14)}, k \in {Pick(Keys)}, v \in {Pick(Vals)}, m \in {Pick(1..5)}, i \in {Pick(1..Len(ms))}, b \in {Pick(BOOLEAN)} :
    IF c <= 3 THEN Set(k, v) ELSE IF c <= 5 THEN Upd(v) ELSE IF c <= 7 THEN Repl(v)
    ELSE IF c <= 9 THEN Member(i, Pick(DOMAIN Coef[ms[i]]), v)
    ELSE IF c = 10 THEN Likes(Pick({<<2>>, <<3, 1>>, <<4, 2, 1>>, <<5>>}), b)
    ELSE IF c <= 12 THEN (IF Len(ms) < 6 THEN Wrap(m, b) ELSE Copy)
    ELSE IF c = 13 THEN Copy ELSE Original(m, v)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
\* the value depends on the members and the parameters only
Exact == \A i, j \in 1..Len(hist) : hist[i].ms = hist[j].ms /\ hist[i].par = hist[j].par => hist[i].total = hist[j].total
Covered == \A i \in 1..Len(ms) : DOMAIN Coef[ms[i]] \subseteq Keys
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
