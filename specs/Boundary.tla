------------------------------ MODULE Boundary ------------------------------
(* Where a proposed point ends up: two parameters on a grid, each with a kind of boundary; the second
   one may be left out of the proposal.  Positions are in units of a quarter of the width of the range. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Reach, Kinds, LogFactors
VARIABLES case
Rem(x, m) == x - m * (x \div m)
Xs == (0 - Reach * W)..((Reach + 1) * W)
Wrap(x) == Rem(x, W)
Fold(x) == LET y == Rem(x, 2 * W) IN IF y <= W THEN y ELSE 2 * W - y
\* set of admissible results: both ends of a periodic range are the same point
Result(kind, x) == CASE kind = "none" -> {x}
                     [] kind = "reflective" -> {Fold(x)}
                     [] kind = "periodic" -> IF Wrap(x) = 0 THEN {0, W} ELSE {Wrap(x)}
Init == case \in [kind : Kinds \X Kinds, x : Xs \X {0 - W, 0 - 1, 1, W, W + 2, 2 * W + 1}, lf : LogFactors, second : BOOLEAN]
Spec == Init /\ [][FALSE]_case
Inside == \A i \in 1..2 : case.kind[i] # "none" => \A r \in Result(case.kind[i], case.x[i]) : 0 <= r /\ r <= W
\* folding keeps the distance to the nearest multiple of twice the width, wrapping that to multiples of the width
FoldIsEven == \A x \in Xs : Fold(x) = Fold(0 - x) /\ Fold(x + 2 * W) = Fold(x) /\ (0 <= x /\ x <= W => Fold(x) = x)
\* the boundaries are applied to symmetric proposals only
Expect(i) == IF i = 2 /\ ~case.second THEN {1} ELSE IF case.lf = 0 THEN Result(case.kind[i], case.x[i]) ELSE {case.x[i]}
Emit == PrintT("@@E " \o ToJson([kind |-> case.kind, x |-> case.x, lf |-> case.lf, second |-> case.second, W |-> W,
                                 res |-> <<Expect(1), Expect(2)>>, jump |-> <<Result(case.kind[1], case.x[1]), Result(case.kind[2], case.x[2])>>]))
=============================================================================
