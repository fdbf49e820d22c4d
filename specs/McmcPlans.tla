----------------------------- MODULE McmcPlans -----------------------------
(* Plans of several lives of one run: how each one starts and ends. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K
VARIABLES plan
Pick(S) == RandomElement(S)
Faults == {"none", "kill_ckpt", "kill_step", "term_step", "int_step", "alrm_step", "term_first", "alrm_first", "term_time", "kill_time", "term_line"}
Damages == {"empty", "cut", "garbage", "foreign"}
Changes == {"ntemps", "Tmax", "adapt", "array", "thin"}
Life(i, f, p, x, dm, ch) ==
  [resume |-> IF i = 1 THEN x < 4 ELSE x # 4, damage |-> IF i > 1 /\ x = 5 THEN dm ELSE "no", change |-> IF i > 1 /\ x = 6 THEN ch ELSE "no",
   fault |-> IF i = K THEN "none" ELSE f, pos |-> p]
Init == plan = <<>>
Next == /\ Len(plan) < K
        /\ \E f \in {Pick(Faults)}, p \in {Pick(1..9)}, x \in {Pick(1..9)}, dm \in {Pick(Damages)}, ch \in {Pick(Changes)} :
             plan' = Append(plan, Life(Len(plan) + 1, f, p, x, dm, ch))
SimSpec == Init /\ [][Next]_plan
Sane == \A i \in 1..Len(plan) : plan[i].damage # "no" => plan[i].resume
Emit == Len(plan) = K => PrintT("@@E " \o ToJson([plan |-> plan]))
=============================================================================
