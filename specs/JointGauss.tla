---------------------------- MODULE JointGauss ----------------------------
(* Bivariate Gaussian mixtures with integer means, covariances, weights and bounds; at integer points
   the exponent times -2 is quad/det with integers quad and det. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Coord
VARIABLES modes, bounds, out
vars == <<modes, bounds, out>>
M1 == [mu |-> <<0, 0>>, cov |-> << <<1, 0>>, <<0, 1>> >>, w |-> 1]
M2 == [mu |-> <<1, -1>>, cov |-> << <<2, 1>>, <<1, 2>> >>, w |-> 3]
M3 == [mu |-> <<3, 0>>, cov |-> << <<9, -4>>, <<-4, 4>> >>, w |-> 2]
Modes == { <<M1>>, <<M2>>, <<M3>>, <<M1, M2>>, <<M2, M3>>, <<M3, M1, M2>> }
Wide == <<-100, 100>>
Bnds == { <<Wide, Wide>>, << <<-1, 2>>, Wide>>, << Wide, <<-3, 1>> >>, << <<-2, 2>>, <<-1, 4>> >> }
Det(m) == m.cov[1][1] * m.cov[2][2] - m.cov[1][2] * m.cov[2][1]
Quad(m, x) == LET a == x[1] - m.mu[1] b == x[2] - m.mu[2] IN
              m.cov[2][2] * a * a - 2 * m.cov[1][2] * a * b + m.cov[1][1] * b * b
Inside(x) == \A i \in {1, 2} : x[i] >= bounds[i][1] /\ x[i] <= bounds[i][2]
Init == modes \in Modes /\ bounds \in Bnds /\ out = <<>>
Pts == SetToSeq(Coord \X Coord)
Next == out = <<>> /\ UNCHANGED <<modes, bounds>>
        /\ out' = << [modes |-> [i \in 1..Len(modes) |-> modes[i] @@ [det |-> Det(modes[i])]], bounds |-> bounds,
                      points |-> [i \in 1..Len(Pts) |-> [x |-> Pts[i], inside |-> Inside(Pts[i]),
                                                        quad |-> [n \in 1..Len(modes) |-> Quad(modes[n], Pts[i])]]]] >>
Spec == Init /\ [][Next]_vars
PosDef == \A i \in 1..Len(modes) : Det(modes[i]) > 0 /\ \A x \in Coord \X Coord : Quad(modes[i], x) >= 0
Emit == out # <<>> => PrintT("@@E " \o ToJson(out))
=============================================================================
