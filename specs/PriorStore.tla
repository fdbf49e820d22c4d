------------------------------ MODULE PriorStore ------------------------------
(* A prior dictionary which is changed, written and read in several formats.  *)
(*                                                                            *)
(* Entries are added in some order and changed; the dictionary is written as  *)
(* a prior file, as JSON or as the printed form of its entries and read back. *)
(* Reading gives what was last written in that format, whatever happened to   *)
(* the dictionary since, in the same order, and the members of a joint        *)
(* distribution refer to one distribution.  A malformed entry is refused and  *)
(* leaves everything as it was.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,        \* kinds of single entries
          Joint,        \* kinds of entries which come in pairs
          Cond,         \* kinds of entries which depend on the first plain entry
          Formats,
          Lossy,        \* <<kind, format>> which the format does not support
          Bad,          \* malformed descriptions
          MaxEntries, MaxOps

VARIABLES mem,          \* sequence of [name, kind, ver]
          store,        \* format -> sequence, as last written
          written,      \* formats which have been written
          cls, hist
vars == <<mem, store, written, cls, hist>>

Init == /\ mem = <<>> /\ store = [f \in Formats |-> <<>>] /\ written = {}
        /\ cls \in {"plain", "conditional"} /\ hist = <<>>

Names(m) == {m[k].name : k \in 1..Len(m)}
Entry(m, kind, k) == [name |-> Len(m) + k, kind |-> kind, ver |-> 0]
Supported(m, f) == \A k \in 1..Len(m) : <<m[k].kind, f>> \notin Lossy

Log(op, x) == hist' = Append(hist, [op |-> op, arg |-> x, mem |-> mem', cls |-> cls])

Add(kind) ==
    /\ Len(mem) < MaxEntries
    /\ kind \in Cond => /\ cls = "conditional"
                        /\ Len(mem) > 0 /\ mem[1].kind = "uniform"
    /\ IF kind \in Joint THEN mem' = mem \o <<Entry(mem, kind, 1), Entry(mem, kind, 2)>>
       ELSE mem' = Append(mem, Entry(mem, kind, 1))
    /\ UNCHANGED <<store, written, cls>>
    /\ Log("add", kind)
Change(k) ==
    /\ k \in 1..Len(mem)
    /\ mem' = [mem EXCEPT ![k].ver = @ + 1]
    /\ UNCHANGED <<store, written, cls>>
    /\ Log("change", k)
Write(f) ==
    /\ mem # <<>> /\ Supported(mem, f)
    /\ store' = [store EXCEPT ![f] = mem] /\ written' = written \cup {f}
    /\ mem' = mem /\ UNCHANGED cls
    /\ Log("write", f)
Read(f) ==
    /\ f \in written
    /\ mem' = store[f]
    /\ UNCHANGED <<store, written, cls>>
    /\ Log("read", f)
Refuse(b) ==
    /\ mem' = mem /\ UNCHANGED <<store, written, cls>>
    /\ Log("bad", b)

Next == /\ Len(hist) < MaxOps
        /\ \/ \E kind \in Kinds \cup Joint \cup Cond : Add(kind)
           \/ \E k \in 1..MaxEntries : Change(k)
           \/ \E f \in Formats : Write(f) \/ Read(f)
Spec == Init /\ [][Next]_vars

SimNext ==
    /\ Len(hist) < MaxOps
    /\ \E dice \in {RandomElement(1..10)} :
       \E kind \in {RandomElement(Kinds \cup Joint \cup Cond)}, k \in {RandomElement(1..MaxEntries)},
          f \in {RandomElement(Formats)}, b \in {RandomElement(Bad)} :
            IF mem = <<>> THEN Add(IF dice <= 3 THEN "uniform" ELSE IF kind \in Cond THEN "uniform" ELSE kind)
            ELSE CASE dice <= 3 /\ Len(mem) < MaxEntries
                      /\ (kind \in Cond => cls = "conditional" /\ mem[1].kind = "uniform") -> Add(kind)
                   [] dice \in {4, 5} /\ k <= Len(mem) -> Change(k)
                   [] dice \in {6, 7} /\ Supported(mem, f) -> Write(f)
                   [] dice \in {8, 9} /\ f \in written -> Read(f)
                   [] dice = 10 -> Refuse(b)
                   [] OTHER -> IF Supported(mem, f) THEN (IF f \in written THEN Read(f) ELSE Write(f)) ELSE Refuse(b)
SimSpec == Init /\ [][SimNext]_vars

ReadBack == \A n \in 1..Len(hist) : hist[n].op = "read" =>
    \E m \in 1..(n - 1) : /\ hist[m].op = "write" /\ hist[m].arg = hist[n].arg
                          /\ \A q \in (m + 1)..(n - 1) : ~(hist[q].op = "write" /\ hist[q].arg = hist[n].arg)
                          /\ hist[n].mem = hist[m].mem
Pairs == \A k \in 1..Len(mem) : mem[k].kind \in Joint =>
    (Cardinality({q \in 1..Len(mem) : mem[q].kind = mem[k].kind}) \div 2) * 2
      = Cardinality({q \in 1..Len(mem) : mem[q].kind = mem[k].kind})
UniqueNames == Cardinality(Names(mem)) = Len(mem)
Emit == Len(hist) = MaxOps => PrintT("@@E " \o ToJson(hist))
=============================================================================
