------------------------------ MODULE Settings ------------------------------
(* How the settings given to a sampler reach it.                              *)
(*                                                                            *)
(* A setting has one native name and any number of equivalent names.  A value *)
(* is represented by the name under which it was given, or "default".  The    *)
(* implementation works on a copy of what the caller gave: it renames the     *)
(* equivalents one by one in a fixed order, fills in the defaults and drops   *)
(* what the sampler does not know.  The abstract result is in Want; the       *)
(* invariants state that the steps give one of the wanted values, whatever    *)
(* else was given, and that neither the caller's settings nor the defaults    *)
(* change over any number of constructions and assignments.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Table,        \* sampler -> [groups: sequence of [native, equivs: sequence], plain: set]
          Unknown,      \* names which no sampler knows
          MaxNames,     \* names given at once
          MaxOps,
          Sample        \* simulation: draw the names instead of enumerating them

VARIABLES s,        \* the sampler
          caller,   \* the names the caller gave, with their values
          given,    \* what was given, for comparison
          work,     \* the copy being renamed
          obj,      \* the settings of the sampler
          deflt,    \* the defaults of its class
          pc, g, e,
          hist
vars == <<s, caller, given, work, obj, deflt, pc, g, e, hist>>

Range(f) == {f[x] : x \in DOMAIN f}
Groups == Table[s].groups
Natives(t) == {Table[t].groups[i].native : i \in 1..Len(Table[t].groups)}
Known(t) == Natives(t) \cup Table[t].plain
Names(t) == Known(t) \cup UNION {Range(Table[t].groups[i].equivs) : i \in 1..Len(Table[t].groups)} \cup Unknown

Id(N) == [n \in N |-> n]
Drop(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

\* the values a setting may have when the names N are given
Want(t, i, N) ==
    LET gr == Table[t].groups[i] IN
    IF gr.native \in N THEN {gr.native}
    ELSE IF Range(gr.equivs) \cap N # {} THEN Range(gr.equivs) \cap N
    ELSE {"default"}
WantAll(t, N) ==
    [groups |-> [i \in 1..Len(Table[t].groups) |->
                    [native |-> Table[t].groups[i].native, allowed |-> Want(t, i, N)]],
     plain  |-> [p \in Table[t].plain |-> IF p \in N THEN p ELSE "default"]]

Init == /\ s \in DOMAIN Table
        /\ caller = <<>> /\ given = <<>> /\ work = <<>>
        /\ deflt = [n \in Known(s) |-> "default"]
        /\ obj = deflt
        /\ pc = "idle" /\ g = 1 /\ e = 1
        /\ hist = <<>>

Pick(t) == IF Sample
           THEN {{RandomElement(Names(t)) : k \in 1..RandomElement(1..MaxNames)}}
           ELSE {{}} \cup {{a, b} : a, b \in Names(t)}

Give(op, N) ==
    /\ caller' = Id(N) /\ given' = Id(N) /\ work' = Id(N)
    /\ pc' = "rename" /\ g' = 1 /\ e' = 0
    /\ hist' = Append(hist, [op |-> op, sampler |-> s, names |-> N, want |-> WantAll(s, N)])
    /\ UNCHANGED <<s, obj, deflt>>

\* e = 0: is the native name given?  Otherwise look for the e-th equivalent.
Rename ==
    /\ pc = "rename"
    /\ UNCHANGED <<s, caller, given, obj, deflt, hist>>
    /\ IF g > Len(Groups) THEN pc' = "merge" /\ UNCHANGED <<work, g, e>>
       ELSE /\ pc' = pc
            /\ IF e = 0
               THEN /\ UNCHANGED work
                    /\ IF Groups[g].native \in DOMAIN work
                       THEN g' = g + 1 /\ e' = 0
                       ELSE g' = g /\ e' = 1
               ELSE IF e > Len(Groups[g].equivs)
               THEN g' = g + 1 /\ e' = 0 /\ UNCHANGED work
               ELSE LET q == Groups[g].equivs[e] IN
                    /\ work' = IF q \in DOMAIN work
                               THEN Put(Drop(work, q), Groups[g].native, work[q])
                               ELSE work
                    /\ g' = g /\ e' = e + 1

\* defaults, overwritten by what was given; the unknown is dropped
Merge ==
    /\ pc = "merge"
    /\ obj' = [n \in Known(s) |-> IF n \in DOMAIN work THEN work[n] ELSE deflt[n]]
    /\ pc' = "ready"
    /\ UNCHANGED <<s, caller, given, work, deflt, g, e, hist>>

NextWith(Choice(_)) ==
    \/ /\ Len(hist) < MaxOps /\ pc \in {"idle", "ready"}
       /\ \E N \in Choice(s) : \E op \in (IF hist = <<>> THEN {"construct"} ELSE {"construct", "assign"}) :
             Give(op, N)
    \/ Rename
    \/ Merge

Next == NextWith(Pick)
Spec == Init /\ [][Next]_vars

\* drawn: one choice of names per step
SimNext ==
    \/ /\ Len(hist) < MaxOps /\ pc \in {"idle", "ready"}
       /\ \E t \in {IF hist = <<>> THEN RandomElement(DOMAIN Table) ELSE s} :
          \E N \in Pick(s) :
          \E op \in {IF hist = <<>> THEN "construct" ELSE RandomElement({"construct", "assign"})} : Give(op, N)
    \/ Rename
    \/ Merge
SimSpec == Init /\ [][SimNext]_vars

Last == hist[Len(hist)]
GivenNames == DOMAIN given

Reaches ==
    pc = "ready" =>
        \A i \in 1..Len(Groups) : obj[Groups[i].native] \in Want(s, i, GivenNames)
NativeWins ==
    pc = "ready" => \A i \in 1..Len(Groups) :
        Groups[i].native \in GivenNames => obj[Groups[i].native] = Groups[i].native
PlainKept ==
    pc = "ready" => \A p \in Table[s].plain \ Natives(s) :
        obj[p] = IF p \in GivenNames THEN p ELSE "default"
UnknownDropped == pc = "ready" => DOMAIN obj = Known(s)
CallerUnchanged == caller = given
DefaultsUnchanged == deflt = [n \in Known(s) |-> "default"]

Emit == (pc = "ready" /\ Len(hist) = MaxOps) => PrintT("@@E " \o ToJson(hist))
=============================================================================
