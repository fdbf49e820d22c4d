---------------------------- MODULE SafeWriteTrace ----------------------------
(* Recorded file operations, and recorded outcomes of faults: every state of the disk between two operations is what a
   process which dies there leaves behind. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, dir, hnd, open, had, prev, bad
vars == <<tr, l, dir, hnd, open, had, prev, bad>>
T == Traces[tr]
Ev == T.events[l]
\* dir: path -> inode (0 absent); hnd: handle -> inode; open: inodes open for writing; inodes are numbered by the event that made them
Paths == {T.paths[i] : i \in 1..Len(T.paths)}
Fds == {T.fds[i] : i \in 1..Len(T.fds)}
Finals == {T.finals[i] : i \in 1..Len(T.finals)}
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ dir = [p \in {Traces[tr].paths[i] : i \in 1..Len(Traces[tr].paths)} |-> IF \E i \in 1..Len(Traces[tr].exist) : Traces[tr].exist[i] = p THEN 1 ELSE 0]
        /\ hnd = [f \in {Traces[tr].fds[i] : i \in 1..Len(Traces[tr].fds)} |-> 0] /\ open = {}
        /\ had = {p \in {Traces[tr].finals[i] : i \in 1..Len(Traces[tr].finals)} : \E i \in 1..Len(Traces[tr].exist) : Traces[tr].exist[i] = p}
        /\ prev = 0
OpenF == /\ Ev.op = "open"
         /\ LET i == IF dir[Ev.a] = 0 THEN l + 10 ELSE dir[Ev.a] IN
            dir' = [dir EXCEPT ![Ev.a] = i] /\ hnd' = [hnd EXCEPT ![Ev.fd] = i] /\ open' = open \cup {i}
         /\ UNCHANGED prev
Write == Ev.op = "write" /\ UNCHANGED <<dir, hnd, open, prev>>
Close == /\ Ev.op = "close" /\ hnd' = [hnd EXCEPT ![Ev.fd] = 0]
         /\ open' = {i \in open : \E f \in Fds : f # Ev.fd /\ hnd[f] = i} /\ UNCHANGED <<dir, prev>>
Rename == Ev.op = "rename" /\ dir' = [dir EXCEPT ![Ev.b] = dir[Ev.a], ![Ev.a] = 0] /\ UNCHANGED <<hnd, open, prev>>
Link == Ev.op = "link" /\ dir' = [dir EXCEPT ![Ev.b] = dir[Ev.a]] /\ UNCHANGED <<hnd, open, prev>>
Unlink == Ev.op = "unlink" /\ dir' = [dir EXCEPT ![Ev.a] = 0] /\ UNCHANGED <<hnd, open, prev>>
\* the outcome of one write with or without a fault: which version was read afterwards
Outcome == /\ Ev.op = "outcome" /\ prev' = Ev.seen /\ UNCHANGED <<dir, hnd, open>>
Wrong(d, o, h) == \E p \in Finals : (p \in h /\ d[p] = 0) \/ (d[p] # 0 /\ d[p] \in o)
Step == /\ bad = "" /\ l <= Len(T.events) /\ (OpenF \/ Write \/ Close \/ Rename \/ Link \/ Unlink \/ Outcome)
        /\ had' = had \cup {p \in Finals : dir'[p] # 0}
        /\ bad' = IF Ev.op = "outcome" THEN
                    IF Ev.res = "done" /\ Ev.seen # Ev.want THEN "a completed write did not leave the new content"
                    ELSE IF Ev.seen \notin {prev, Ev.want} THEN "neither the previous nor the new content"
                    ELSE IF Ev.fault = "none" /\ Ev.res # "done" THEN "a write without a fault failed" ELSE ""
                  ELSE IF \E p \in Finals : p \in had' /\ dir'[p] = 0 THEN "the file is missing"
                  ELSE IF Wrong(dir', open', had') THEN "the file under the final name is still being written" ELSE ""
        /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == /\ bad # "" => PrintT("@@B " \o ToJson([tr |-> tr, l |-> l - 1, why |-> bad]))
          /\ (bad = "" /\ l = Len(T.events) + 1) => PrintT("@@K " \o ToString(tr))
=============================================================================
