---------------------------- MODULE DynestyResume ----------------------------
(* A nested-sampling run over several processes (lives): dead points, live points, live points added at the end of a
   chunk and removed again, checkpoints, crashes and signals at every step. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L, MaxIter, Lives, ById   \* ById: the added live points are identified by the number of iterations
VARIABLES ph, dead, live, added, t, disk, born, life, cur, res, hist
vars == <<ph, dead, live, added, t, disk, born, life, cur, res, hist>>
\* ph: down, init, iter, add, chunk; disk: [has, ok, rec, it, live, t, flag]; cur: this life; born: ids given out
Range(s) == {s[i] : i \in 1..Len(s)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Asc(S \ {Least(S)})
NoDisk == [has |-> FALSE, ok |-> FALSE, rec |-> <<>>, it |-> 0, live |-> {}, t |-> 0, dead |-> <<>>]
Strip(d) == IF ById THEN SubSeq(d.rec, 1, d.it)
            ELSE IF Len(d.rec) > d.it THEN SubSeq(d.rec, 1, IF Len(d.rec) >= L THEN Len(d.rec) - L ELSE 0) ELSE d.rec
Written == [has |-> TRUE, ok |-> TRUE, rec |-> dead \o SubSeq(Asc(live), 1, added), it |-> Len(dead), live |-> live, t |-> t, dead |-> dead]
Resumes(c) == c.resume /\ disk.has /\ disk.ok
Damage(d, c) == IF c = "no" \/ ~d.has THEN d ELSE [d EXCEPT !.ok = FALSE]
Start(c) ==
  /\ ph = "down" /\ life < Lives /\ life' = life + 1 /\ cur' = c
  /\ LET d == Damage(disk, c.damage) IN
     /\ disk' = d
     /\ IF c.resume /\ d.has /\ d.ok
        THEN dead' = Strip(d) /\ live' = d.live /\ t' = d.t /\ ph' = "iter" /\ UNCHANGED born
        ELSE dead' = <<>> /\ live' = {} /\ t' = 0 /\ ph' = "init" /\ UNCHANGED born
  /\ added' = 0 /\ res' = <<>> /\ UNCHANGED hist
InitLive == /\ ph = "init" /\ live' = born + 1 .. born + L /\ born' = born + L /\ ph' = "iter" /\ UNCHANGED <<dead, added, t, disk, life, cur, res, hist>>
Iterate == /\ ph = "iter" /\ Len(dead) < MaxIter /\ dead' = Append(dead, Least(live)) /\ live' = (live \ {Least(live)}) \cup {born + 1}
           /\ born' = born + 1 /\ t' = t + 1 /\ UNCHANGED <<ph, added, disk, life, cur, res, hist>>
BeginAdd == ph = "iter" /\ ph' = "add" /\ UNCHANGED <<dead, live, added, t, disk, born, life, cur, res, hist>>
Add == ph = "add" /\ added < L /\ added' = added + 1 /\ UNCHANGED <<ph, dead, live, t, disk, born, life, cur, res, hist>>
Chunk == ph = "add" /\ added = L /\ ph' = "chunk" /\ UNCHANGED <<dead, live, added, t, disk, born, life, cur, res, hist>>
Ckpt == ph = "chunk" /\ disk' = Written /\ UNCHANGED <<ph, dead, live, added, t, born, life, cur, res, hist>>
Continue == ph = "chunk" /\ Len(dead) < MaxIter /\ ph' = "iter" /\ added' = 0 /\ UNCHANGED <<dead, live, t, disk, born, life, cur, res, hist>>
End(how) == /\ ph' = "down" /\ hist' = Append(hist, [resume |-> cur.resume, damage |-> cur.damage, fault |-> how, at |-> ph, ckpt |-> disk'.has])
            /\ UNCHANGED <<dead, live, added, t, born, life, cur>>
Finish == ph = "chunk" /\ Len(dead) = MaxIter /\ disk' = Written /\ res' = dead \o Asc(live) /\ End("none")
Crash == ph # "down" /\ UNCHANGED <<disk, res>> /\ End("crash")
Signal == ph # "down" /\ disk' = (IF ph = "init" THEN disk ELSE Written) /\ UNCHANGED res /\ End("signal")
Choices == [resume : BOOLEAN, damage : {"no", "bad"}]
Init == /\ ph = "down" /\ dead = <<>> /\ live = {} /\ added = 0 /\ t = 0 /\ disk = NoDisk /\ born = 0 /\ life = 0 /\ res = <<>> /\ hist = <<>>
        /\ cur = [resume |-> TRUE, damage |-> "no"]
Next == (\E c \in Choices : Start(c)) \/ InitLive \/ Iterate \/ BeginAdd \/ Add \/ Chunk \/ Ckpt \/ Continue \/ Finish \/ Crash \/ Signal
Spec == Init /\ [][Next]_vars
\* nothing is lost, repeated or altered: the points alive or dead are those of one unbroken run
NoDup == Cardinality(Range(dead)) = Len(dead) /\ Range(dead) \cap live = {}
Ordered == \A i \in 1..(Len(dead) - 1) : dead[i] < dead[i + 1]
LiveAll == ph \notin {"down", "init"} => Cardinality(live) = L
Unbroken == [][(ph = "down" /\ ph' = "iter") => dead' = disk'.dead /\ live' = disk'.live /\ t' = disk'.t]_vars
TimeOnce == t = Len(dead)
ResultAll == res # <<>> => res = disk.dead \o Asc(disk.live)
Grows == [][disk'.ok /\ disk.ok /\ disk' # disk /\ cur.resume => \E k \in 0..Len(disk'.dead) : SubSeq(disk'.dead, 1, k) = disk.dead \/ ~cur.resume \/ ph = "chunk"]_vars
=============================================================================
