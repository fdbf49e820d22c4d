---------------------------- MODULE SamplerEval ----------------------------
(* What a sampler has to evaluate when an external sampler proposes a point.

   The prior dictionary is a sequence of kinds: "free" (uniform on [i, i+4]), "fixed" / "num" (the value 10 i, as
   a prior or as a plain number), "con" (a constraint on the sum of the free parameters: it must not exceed
   its smallest value in the prior by more than i + Limit).  The likelihood is the weighted sum of all its parameters (weights 1, 100, 10000, ...), so that any
   parameter set wrongly, or in the wrong order, changes the value; the noise log likelihood is -Noise.
   Other code may change the likelihood's parameters at any time (Scribble); the next evaluation must not see it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lens, MaxOps, Limit, Noise, Points, Units, Classes
VARIABLES kinds, cls, ratio, params, hist
vars == <<kinds, cls, ratio, params, hist>>

Kinds == {"free", "fixed", "num", "con"}
Idx == 1..Len(kinds)
W == <<1, 100, 10000, 1000000, 100000000>>
Keep(S) == SelectSeq([i \in Idx |-> i], LAMBDA i : kinds[i] \in S)
Search == Keep({"free"})
Fixed == Keep({"fixed", "num"})
Cons == Keep({"con"})
NS == Len(Search)
Pos(i) == CHOOSE j \in 1..NS : Search[j] = i
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Total(f, S) == LET RECURSIVE T(_)
                   T(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN f[x] + T(R \ {x})
               IN T(S)
Param(i, th) == IF kinds[i] = "free" THEN th[Pos(i)] ELSE 10 * i
Like(p) == Total([i \in Idx |-> W[i] * p[i]], {i \in Idx : kinds[i] # "con"})
Allowed(th) == \A j \in 1..Len(Cons) : 2 * (Sum(th, NS) - Sum(Search, NS)) < 2 * (Cons[j] + Limit) + 1
Inside(th) == \A j \in 1..NS : Search[j] <= th[j] /\ th[j] <= Search[j] + 4

\* a family of points: the j-th free parameter i gets i + (m (j + a)) mod 7 - 1, from one below to one above the range
Rem(x, m) == x - m * (x \div m)
Theta(p) == [j \in 1..NS |-> Search[j] + Rem(p[1] * (j + p[2]), 7) - 1]
Unit(u) == [j \in 1..NS |-> Rem(u[1] * (j + u[2]), 5)]

Init == /\ \E n \in Lens : kinds \in [1..n -> Kinds]
        /\ \E i \in 1..Len(kinds) : kinds[i] = "free"
        /\ cls \in Classes /\ ratio \in BOOLEAN
        /\ params = [i \in 1..Len(kinds) |-> IF kinds[i] \in {"fixed", "num"} THEN 10 * i ELSE 0]
        /\ hist = <<>>
More == Len(hist) < MaxOps
Do(o) == hist' = Append(hist, o) /\ UNCHANGED <<kinds, cls, ratio>>

Eval == \E p \in Points : LET th == Theta(p) IN
   IF cls = "nested" /\ ~Allowed(th)
   THEN params' = params /\ Do([op |-> "eval", th |-> th, value |-> 0, excluded |-> TRUE, calls |-> 0])
   ELSE /\ params' = [i \in Idx |-> IF kinds[i] = "con" THEN params[i] ELSE Param(i, th)]
        /\ Do([op |-> "eval", th |-> th, value |-> Like(params') + (IF ratio THEN Noise ELSE 0), excluded |-> FALSE, calls |-> 1])
Prior == \E p \in Points : LET th == Theta(p) IN
   params' = params /\ Do([op |-> "prior", th |-> th, zero |-> ~(Inside(th) /\ Allowed(th))])
Transform == \E u \in Units :
   params' = params /\ Do([op |-> "transform", u |-> Unit(u), th |-> [j \in 1..NS |-> Search[j] + Unit(u)[j]]])
CheckDraw == \E p \in Points : LET th == Theta(p) IN
   /\ params' = params
   /\ Do([op |-> "check", th |-> th, ok |-> Inside(th) /\ Allowed(th)])
Scribble == /\ \E i \in Idx : kinds[i] = "free"
            /\ params' = [i \in Idx |-> IF kinds[i] = "free" THEN 99 ELSE params[i]]
            /\ Do([op |-> "scribble", th |-> <<>>])
Next == More /\ (Eval \/ Prior \/ Transform \/ CheckDraw \/ Scribble)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][More /\ (Eval \/ Prior \/ Transform \/ CheckDraw \/ Scribble)]_vars

(* design level *)
Partition == LET A == {Search[j] : j \in 1..NS} B == {Fixed[j] : j \in 1..Len(Fixed)} C == {Cons[j] : j \in 1..Len(Cons)}
             IN A \cup B \cup C = Idx /\ Len(Search) + Len(Fixed) + Len(Cons) = Len(kinds)
FixedStay == \A i \in Idx : kinds[i] \in {"fixed", "num"} => params[i] = 10 * i
Emit == (Len(hist) = MaxOps) =>
   PrintT("@@E " \o ToJson([kinds |-> kinds, cls |-> cls, ratio |-> ratio, search |-> Search, fixed |-> Fixed, cons |-> Cons, hist |-> hist]))
=============================================================================
