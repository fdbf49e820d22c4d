------------------------------ MODULE SafeWrite ------------------------------
(* Rewriting a file through a temporary file: the content of every inode is a sequence of chunks, each marked with the
   write it comes from; a write may crash, fail or be interrupted by another write (a signal handler which writes and
   exits) at every step. SharedTemp models an interrupting write that reuses the inode of the interrupted one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, C, SharedTemp
VARIABLES fin, tmp, ino, stack, last, nid, n, hist
vars == <<fin, tmp, ino, stack, last, nid, n, hist>>
\* fin, tmp: inode number or 0; ino: sequence of contents; stack: frames; last: the write whose content is complete
Top == stack[Len(stack)]
Put(c, pos, v) == [i \in 1..(IF pos > Len(c) THEN pos ELSE Len(c)) |-> IF i = pos THEN v ELSE IF i <= Len(c) THEN c[i] ELSE 0]
Flushed(io, f) == IF f.ph = "open" /\ f.buf THEN [io EXCEPT ![f.io] = Put(@, f.pos, f.id)] ELSE io
RECURSIVE Unwind(_, _)
Unwind(io, s) == IF s = <<>> THEN io ELSE Unwind(Flushed(io, s[Len(s)]), SubSeq(s, 1, Len(s) - 1))
SetTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]
E(id, ev, ph, pos, nest) == hist' = Append(hist, [id |-> id, ev |-> ev, ph |-> ph, pos |-> pos, nest |-> nest, after |-> last', left |-> tmp' # 0])
Same == UNCHANGED hist
New == [id |-> nid + 1, ph |-> "new", io |-> 0, pos |-> 0, buf |-> FALSE]
Begin == stack = <<>> /\ n < N /\ stack' = <<New>> /\ nid' = nid + 1 /\ n' = n + 1 /\ UNCHANGED <<fin, tmp, ino, last>> /\ Same
Open == /\ stack # <<>> /\ Top.ph = "new"
        /\ IF SharedTemp /\ tmp # 0 THEN ino' = [ino EXCEPT ![tmp] = <<>>] /\ tmp' = tmp /\ SetTop([Top EXCEPT !.ph = "open", !.io = tmp])
           ELSE ino' = Append(ino, <<>>) /\ tmp' = Len(ino) + 1 /\ SetTop([Top EXCEPT !.ph = "open", !.io = Len(ino) + 1])
        /\ UNCHANGED <<fin, last, nid, n>> /\ Same
Chunk == /\ stack # <<>> /\ Top.ph = "open" /\ Top.pos < C
         /\ ino' = Flushed(ino, Top) /\ SetTop([Top EXCEPT !.pos = @ + 1, !.buf = TRUE])
         /\ UNCHANGED <<fin, tmp, last, nid, n>> /\ Same
Close == /\ stack # <<>> /\ Top.ph = "open" /\ Top.pos = C
         /\ ino' = Flushed(ino, Top) /\ SetTop([Top EXCEPT !.ph = "closed", !.buf = FALSE])
         /\ UNCHANGED <<fin, tmp, last, nid, n>> /\ Same
Rename == /\ stack # <<>> /\ Top.ph = "closed" /\ fin' = tmp /\ tmp' = 0 /\ last' = Top.id /\ UNCHANGED <<nid, n>>
          /\ IF Len(stack) = 1 THEN stack' = <<>> /\ UNCHANGED ino /\ E(Top.id, "done", "end", 0, 0)
             ELSE \* the interrupting write is done, the process exits: the files of the interrupted write are closed
               LET low == SubSeq(stack, 1, Len(stack) - 1) IN
               ino' = Unwind(ino, low) /\ stack' = <<>> /\ E(stack[1].id, "nested", low[1].ph, low[1].pos, Top.id)
Crash == stack # <<>> /\ Len(stack) = 1 /\ stack' = <<>> /\ UNCHANGED <<fin, tmp, ino, last, nid, n>> /\ E(Top.id, "crash", Top.ph, Top.pos, 0)
Fail == stack # <<>> /\ Len(stack) = 1 /\ Top.ph = "open" /\ ino' = Unwind(ino, stack) /\ stack' = <<>>
        /\ UNCHANGED <<fin, tmp, last, nid, n>> /\ E(Top.id, "fail", Top.ph, Top.pos, 0)
Interrupt == /\ Len(stack) = 1 /\ Top.ph \in {"open", "closed"} /\ stack' = Append(stack, New) /\ nid' = nid + 1 /\ UNCHANGED <<fin, tmp, ino, last, n>> /\ Same
Init == fin = 0 /\ tmp = 0 /\ ino = <<>> /\ stack = <<>> /\ last = 0 /\ nid = 0 /\ n = 0 /\ hist = <<>>
Next == Begin \/ Open \/ Chunk \/ Close \/ Rename \/ Crash \/ Fail \/ Interrupt
Spec == Init /\ [][Next]_vars
Whole(c) == Len(c) = C /\ \A i \in 1..C : c[i] = c[1] /\ c[i] # 0
\* at every moment the final name holds nothing (before the first completed write) or one complete content, the last completed one
Atomic == IF fin = 0 THEN last = 0 ELSE Whole(ino[fin]) /\ ino[fin][1] = last
Settles == [][stack # <<>> /\ stack' = <<>> /\ Top.ph = "closed" /\ fin' # fin => last' = Top.id]_vars
Emit == (n = N /\ stack = <<>>) => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
