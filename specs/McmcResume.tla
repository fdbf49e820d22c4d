----------------------------- MODULE McmcResume -----------------------------
(* A parallel-tempered run over several processes (lives): chains of N samplers which step one after the other, exchange
   their last steps, are written to a checkpoint, and are stopped at every point by a crash or a signal. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, MaxSteps, Lives, SwapOnResume   \* SwapOnResume: a variant which repeats an unfinished exchange when it is resumed
VARIABLES ph, chain, nxt, swaps, t, born, disk, life, cur, from
vars == <<ph, chain, nxt, swaps, t, born, disk, life, cur, from>>
Samplers == 1..N
None == [has |-> FALSE, ok |-> FALSE, chain |-> [i \in Samplers |-> <<>>], swaps |-> 0, t |-> 0, set |-> 0, mid |-> FALSE]
State(mid) == [has |-> TRUE, ok |-> TRUE, chain |-> chain, swaps |-> swaps, t |-> t, set |-> cur.set, mid |-> mid]
Last(s) == s[Len(s)]
SetLast(s, x) == SubSeq(s, 1, Len(s) - 1) \o <<x>>
Swapped(c) == [c EXCEPT ![1] = SetLast(c[1], Last(c[2])), ![2] = SetLast(c[2], Last(c[1]))]
Choices == [resume : BOOLEAN, damage : BOOLEAN, set : {0, 1}]
Start(c) ==
  /\ ph = "down" /\ life < Lives /\ life' = life + 1 /\ cur' = c /\ nxt' = 1
  /\ LET d == IF c.damage THEN [disk EXCEPT !.ok = FALSE] ELSE disk IN
     /\ disk' = d /\ from' = d
     /\ IF c.resume /\ d.has /\ d.ok
        THEN IF d.set # c.set THEN ph' = "down" /\ UNCHANGED <<chain, swaps, t, born>>     \* refused
             ELSE /\ ph' = "step" /\ swaps' = d.swaps /\ t' = d.t /\ UNCHANGED born
                  /\ chain' = IF SwapOnResume /\ d.mid THEN Swapped(d.chain) ELSE d.chain
        ELSE /\ ph' = "step" /\ chain' = [i \in Samplers |-> <<born + i>>] /\ born' = born + N /\ swaps' = 0 /\ t' = 0
Step == /\ ph = "step" /\ nxt <= N /\ Len(chain[nxt]) < MaxSteps
        /\ chain' = [chain EXCEPT ![nxt] = Append(@, born + 1)] /\ born' = born + 1 /\ nxt' = nxt + 1
        /\ UNCHANGED <<ph, swaps, t, disk, life, cur, from>>
\* all have stepped: exchange or not
Exchange(accept) == /\ ph = "step" /\ nxt = N + 1 /\ chain' = (IF accept THEN Swapped(chain) ELSE chain)
                    /\ swaps' = swaps + 1 /\ t' = t + 1 /\ ph' = "chunk" /\ UNCHANGED <<nxt, born, disk, life, cur, from>>
Checkpoint == ph = "chunk" /\ disk' = State(FALSE) /\ UNCHANGED <<ph, chain, nxt, swaps, t, born, life, cur, from>>
Continue == ph = "chunk" /\ ph' = "step" /\ nxt' = 1 /\ UNCHANGED <<chain, swaps, t, born, disk, life, cur, from>>
Crash == ph # "down" /\ ph' = "down" /\ UNCHANGED <<chain, nxt, swaps, t, born, disk, life, cur, from>>
Signal == ph # "down" /\ ph' = "down" /\ disk' = State(ph = "step" /\ nxt = N + 1) /\ UNCHANGED <<chain, nxt, swaps, t, born, life, cur, from>>
Init == /\ ph = "down" /\ chain = [i \in Samplers |-> <<>>] /\ nxt = 1 /\ swaps = 0 /\ t = 0 /\ born = 0 /\ disk = None /\ life = 0 /\ from = None
        /\ cur = [resume |-> TRUE, damage |-> FALSE, set |-> 0]
Next == (\E c \in Choices : Start(c)) \/ Step \/ (\E a \in BOOLEAN : Exchange(a)) \/ Checkpoint \/ Continue \/ Crash \/ Signal
Spec == Init /\ [][Next]_vars
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Continues == cur.resume /\ from.has /\ from.ok /\ from.set = cur.set
\* what the run was resumed from stays as it was, in every sampler, for as long as the run is alive and in what it writes
Kept == (ph # "down" /\ Continues) => \A i \in Samplers : Prefix(from.chain[i], chain[i])
KeptOnDisk == (Continues /\ disk.ok /\ disk # from) => \A i \in Samplers : Prefix(from.chain[i], disk.chain[i])
\* no step is stored twice within a chain
Once == \A i \in Samplers : \A j, k \in 1..Len(chain[i]) : j # k => chain[i][j] # chain[i][k]
Counters == (ph # "down" /\ Continues) => swaps >= from.swaps /\ t >= from.t
Refused == [][disk'.chain # disk.chain /\ cur'.resume /\ disk.has /\ disk.ok => disk.set = cur'.set]_vars
Fresh == (ph # "down" /\ ~Continues) => \A i \in Samplers : \A x \in 1..Len(chain[i]), k \in Samplers : \A y \in 1..Len(from.chain[k]) : chain[i][x] # from.chain[k][y]
=============================================================================
