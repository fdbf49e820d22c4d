----------------------------- MODULE DynestyPlans -----------------------------
(* Plans of several lives of one run: how each one starts and ends. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K
VARIABLES plan
Pick(S) == RandomElement(S)
Faults == {"none", "kill_iter", "kill_ckpt", "kill_add", "term_iter", "int_iter", "alrm_iter", "term_add", "term_init", "kill_init", "int_add"}
Damages == {"no", "no", "no", "empty", "cut", "garbage", "foreign"}
Life(i, f, p, x, dm) == [resume |-> IF i = 1 THEN x < 3 ELSE x # 4, damage |-> IF i > 1 /\ x = 5 THEN dm ELSE "no", fault |-> IF i = K THEN "none" ELSE f, pos |-> p]
Init == plan = <<>>
Next == /\ Len(plan) < K
        /\ \E f \in {Pick(Faults)}, p \in {Pick(1..9)}, x \in {Pick(1..9)}, dm \in {Pick(Damages)} :
             plan' = Append(plan, Life(Len(plan) + 1, f, p, x, dm))
SimSpec == Init /\ [][Next]_plan
\* a damaged file can only be met by a life that wants to resume
Sane == \A i \in 1..Len(plan) : plan[i].damage # "no" => plan[i].resume
Emit == Len(plan) = K => PrintT("@@E " \o ToJson([plan |-> plan]))
=============================================================================
