----------------------------- MODULE RandomDraws -----------------------------
(* One generator for the whole process: what a draw gives is determined by the seed and by the calls made since. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops, Seeds, MaxLen, MaxSuffix, Own   \* Own: operations drawing from a generator of their own (a variant)
VARIABLES gen, own, hist, seen, len
vars == <<gen, own, hist, seen, len>>
\* gen: <<seed, calls since>>; own: calls made to the other generator; seen: pairs <<state, operation, value>>
Value(g, o, op) == IF op \in Own THEN <<"own", o, op>> ELSE <<"gen", g, op>>
Init == gen = <<0, <<>>>> /\ own = 0 /\ hist = <<>> /\ seen = {} /\ len = 0
Seed(s) == gen' = <<s, <<>>>> /\ UNCHANGED <<own, seen>> /\ hist' = Append(hist, [do |-> "seed", x |-> s, seed |-> s, calls |-> <<>>])
Draw(op) == /\ gen[1] # 0 /\ Len(gen[2]) < MaxSuffix
            /\ gen' = <<gen[1], Append(gen[2], op)>> /\ own' = (IF op \in Own THEN own + 1 ELSE own)
            /\ seen' = seen \cup {<<gen, op, Value(gen, own, op)>>}
            /\ hist' = Append(hist, [do |-> "draw", x |-> op, seed |-> gen[1], calls |-> gen[2]])
\* generators which do not belong to bilby are used in between
Noise(k) == UNCHANGED <<gen, seen>> /\ own' = own + k /\ hist' = Append(hist, [do |-> "noise", x |-> k, seed |-> gen[1], calls |-> gen[2]])
Next == len < MaxLen /\ len' = len + 1 /\ ((\E s \in Seeds : Seed(s)) \/ (\E op \in Ops : Draw(op)) \/ (\E k \in {1, 2} : Noise(k)))
Spec == Init /\ [][Next]_vars
\* random histories which repeat some calls after seeding again
Pick(S) == RandomElement(S)
SimNext == /\ len < MaxLen /\ len' = len + 1
           /\ \E q \in {Pick(1..9)}, s \in {Pick(Seeds)}, op \in {Pick(Ops)}, k \in {Pick({1, 2})} :
                IF gen[1] = 0 \/ Len(gen[2]) >= MaxSuffix \/ q = 1 THEN Seed(s) ELSE IF q = 2 THEN Noise(k) ELSE Draw(op)
SimSpec == Init /\ [][SimNext]_vars
\* the same seed and calls give the same value, other seeds other values
Function == \A a, b \in seen : (a[1] = b[1] /\ a[2] = b[2]) <=> a[3] = b[3]
Emit == len = MaxLen => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
