------------------------------ MODULE PopModel ------------------------------
(* A population model: a product of factors, each of which depends on the data object it is given and on the values
   of its own parameters. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Data, Vals, K
VARIABLES par, hist
vars == <<par, hist>>
Step(o) == hist' = Append(hist, o)
O(op, x, y) == [op |-> op, x |-> x, y |-> y, par |-> par']
Set(k, v) == par' = [par EXCEPT ![k] = v] /\ Step(O("set", k, v))
Replace(v) == par' = v /\ Step(O("replace", "", 0))
Prob(d) == UNCHANGED par /\ Step(O("prob", d, 0))
\* a parameter is missing: the evaluation fails
Fail(d) == UNCHANGED par /\ Step(O("fail", d, 0))
Init == par = [a |-> 1, b |-> 1] /\ hist = <<>>
Next == Len(hist) < K /\
  (\/ \E k \in {"a", "b"}, v \in Vals : Set(k, v)
   \/ \E d \in Data : Prob(d) \/ Fail(d)
   \/ \E v \in [a : Vals, b : Vals] : Replace(v))
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
