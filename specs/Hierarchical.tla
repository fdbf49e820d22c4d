---------------------------- MODULE Hierarchical ----------------------------
(* A hierarchical likelihood: for every event the mean over its samples of (population model / sampling prior). The
   population model is a product of factors, each given exactly the parameters it declares. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Factors, Forms, Sizes, Vals, K
VARIABLES setup, par, n, hist
vars == <<setup, par, n, hist>>
MinOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
Lesser(a, b) == IF a < b THEN a ELSE b
O(op, x, y) == hist' = Append(hist, [op |-> op, x |-> x, y |-> y, par |-> par', n |-> n', setup |-> setup'])
Set(k, v) == par' = [par EXCEPT ![k] = v] /\ UNCHANGED <<setup, n>> /\ O("set", k, v)
Repl(a, b) == par' = [a |-> a, b |-> b] /\ UNCHANGED <<setup, n>> /\ O("replace", 0, 0)
\* new samples are drawn from every event, at most m of each
Resample(m) == n' = Lesser(m, MinOf(setup.sizes)) /\ UNCHANGED <<setup, par>> /\ O("resample", m, 0)
\* new samples are drawn but not used
Look(m) == UNCHANGED <<setup, par, n>> /\ O("look", m, 0)
Copy == UNCHANGED <<setup, par, n>> /\ O("copy", 0, 0)
Again == UNCHANGED <<setup, par, n>> /\ O("again", 0, 0)
Rest(o) == /\ par = [a |-> 1, b |-> 2] /\ n = Lesser(setup.max, MinOf(setup.sizes))
           /\ hist = <<[op |-> "init", x |-> 0, y |-> 0, par |-> par, n |-> n, setup |-> setup]>>
Init == /\ setup \in [factors : Factors, form : Forms, sizes : Sizes, max : {2, 3, 100}, ev : BOOLEAN, cache : BOOLEAN]
        /\ Rest(0)
Pick(S) == RandomElement(S)
Next == Len(hist) < K /\
  (\/ \E k \in {"a", "b"}, v \in Vals : Set(k, v)
   \/ Repl(3, 1) \/ \E m \in {2, 100} : Resample(m) \/ Look(m)
   \/ Copy \/ Again)
SimNext == Len(hist) < K /\
  \E c \in {Pick(1..10)}, m \in {Pick({2, 3, 4, 100})}, v \in {Pick(Vals)} :
    IF c <= 3 THEN Set(Pick({"a", "b"}), v) ELSE IF c <= 5 THEN Repl(v, Pick(Vals))
    ELSE IF c <= 7 THEN Resample(m) ELSE IF c = 8 THEN Look(m) ELSE IF c = 9 THEN Copy ELSE Again
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
Bounded == n >= 1 /\ n <= MinOf(setup.sizes)
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
