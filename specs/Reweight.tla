------------------------------ MODULE Reweight ------------------------------
(* Reweighting N samples: evaluation sample by sample, checkpoints every C samples, stops at any point, resuming. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, CS, Lives, Values, Restart    \* Restart: "known" (first sample not evaluated) or "any" (some sample: a variant)
VARIABLES n, c, x, opt, ph, i, mem, disk, tmp, life, hist, out
vars == <<n, c, x, opt, ph, i, mem, disk, tmp, life, hist, out>>
Bools == [oldL : BOOLEAN, newL : BOOLEAN, oldP : BOOLEAN, newP : BOOLEAN, nested : BOOLEAN]
\* the functions of a sample with value v: what is stored, and what the given likelihoods and priors say
StoredL(v) == -v
OldL(v) == 1 - v
NewL(v) == -2 * v
StoredP(v) == -3
OldP(v) == v - 2
NewP(v) == IF v = 2 THEN -1 ELSE 0
OL(v) == IF opt.oldL THEN OldL(v) ELSE StoredL(v)
NL(v) == IF opt.newL THEN NewL(v) ELSE OL(v)
OP(v) == IF opt.oldP THEN OldP(v) ELSE StoredP(v)
NP(v) == IF opt.newP THEN NewP(v) ELSE OP(v)
Row(v) == <<OL(v), OP(v), NL(v), NP(v)>>
LnW(v) == NL(v) + NP(v) - OL(v) - OP(v)
Blank == <<"unset">>
NoDisk == [has |-> FALSE, rows |-> <<>>]
First(rows) == IF \E j \in 1..Len(rows) : rows[j] = Blank THEN CHOOSE j \in 1..Len(rows) : rows[j] = Blank /\ \A k \in 1..(j - 1) : rows[k] # Blank ELSE Len(rows) + 1
Init == /\ n \in NS /\ c \in CS /\ x \in [1..n -> Values] /\ opt \in Bools /\ ph = "down" /\ i = 0 /\ mem = <<>> /\ disk = NoDisk
        /\ tmp = FALSE /\ life = 0 /\ hist = <<>> /\ out = <<>>
Fixed == UNCHANGED <<n, c, x, opt>>
Start == /\ ph = "down" /\ life < Lives /\ out = <<>> /\ life' = life + 1 /\ ph' = "lik" /\ Fixed
         /\ mem' = (IF disk.has THEN disk.rows ELSE [j \in 1..n |-> Blank])
         /\ (IF Restart = "known" THEN i' = First(mem') ELSE i' \in 1..(n + 1))
         /\ UNCHANGED <<disk, tmp, hist, out>>
\* the likelihoods of all remaining samples are evaluated first
Likelihoods == ph = "lik" /\ ph' = (IF i > n THEN "end" ELSE "prior") /\ Fixed /\ UNCHANGED <<i, mem, disk, tmp, life, hist, out>>
Prior == /\ ph = "prior" /\ mem' = [mem EXCEPT ![i] = Row(x[i])] /\ Fixed
         /\ ph' = (IF (i - 1) - ((i - 1) \div c) * c = 0 THEN "write" ELSE "next") /\ UNCHANGED <<i, disk, tmp, life, hist, out>>
\* a checkpoint is written aside and then moved
Write == ph = "write" /\ tmp' = TRUE /\ ph' = "move" /\ Fixed /\ UNCHANGED <<i, mem, disk, life, hist, out>>
Move == /\ ph = "move" /\ tmp' = FALSE /\ ph' = "next" /\ disk' = [has |-> TRUE, rows |-> [j \in 1..n |-> IF j <= i THEN mem[j] ELSE Blank]]
        /\ Fixed /\ UNCHANGED <<i, mem, life, hist, out>>
Advance == ph = "next" /\ i' = i + 1 /\ ph' = (IF i = n THEN "end" ELSE "prior") /\ Fixed /\ UNCHANGED <<mem, disk, tmp, life, hist, out>>
End == /\ ph = "end" /\ ph' = "done" /\ out' = mem /\ hist' = Append(hist, [at |-> "none", i |-> 0]) /\ Fixed /\ UNCHANGED <<i, mem, disk, tmp, life>>
Stop == /\ ph \in {"lik", "prior", "write", "move"} /\ life < Lives /\ ph' = "down" /\ hist' = Append(hist, [at |-> ph, i |-> i]) /\ Fixed
        /\ UNCHANGED <<i, mem, disk, tmp, life, out>>
Next == Start \/ Likelihoods \/ Prior \/ Write \/ Move \/ Advance \/ End \/ Stop
Spec == Init /\ [][Next]_vars
Pick(S) == RandomElement(S)
\* random histories: the set-up is chosen by the first step
SimInit == n = 0 /\ c = 1 /\ x = <<>> /\ opt = [oldL |-> FALSE, newL |-> FALSE, oldP |-> FALSE, newP |-> FALSE, nested |-> FALSE] /\ ph = "setup" /\ i = 0 /\ mem = <<>> /\ disk = NoDisk /\ tmp = FALSE /\ life = 0 /\ hist = <<>> /\ out = <<>>
Setup == /\ ph = "setup" /\ ph' = "down" /\ \E k \in {Pick(NS)} : n' = k /\ x' = [j \in 1..k |-> Pick(Values)]
         /\ c' = Pick(CS) /\ opt' = [oldL |-> Pick(BOOLEAN), newL |-> Pick(BOOLEAN), oldP |-> Pick(BOOLEAN), newP |-> Pick(BOOLEAN), nested |-> Pick(BOOLEAN)]
         /\ UNCHANGED <<i, mem, disk, tmp, life, hist, out>>
SimSpec == SimInit /\ [][Next \/ Setup]_vars
\* in whatever way it was stopped and resumed, every sample has its own values
AllRight == (ph = "done") => \A j \in 1..n : out[j] = Row(x[j])
\* what is on disk is right as far as it is there
DiskRight == disk.has => \A j \in 1..n : disk.rows[j] \in {Blank, Row(x[j])}
Emit == ph = "done" => PrintT("@@E " \o ToJson([n |-> n, c |-> c, x |-> x, opt |-> opt, lives |-> hist, rows |-> [j \in 1..n |-> Row(x[j])], lnw |-> [j \in 1..n |-> LnW(x[j])]]))
=============================================================================
