----------------------------- MODULE RunSampler -----------------------------
(* Histories of calls to run_sampler sharing an output directory.

   A result is identified by the number of the execution of the sampler that made it.  Files are named by label and
   format; "json" is the only format looked at when a stored result may be reused.  A file may be damaged (-1). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Labels, PriorSets, Metas, Saves, Cleans, Extras, K, Damage

VARIABLES disk,    \* [Labels -> [Exts -> id, 0 none, -1 damaged]]
          old,     \* the same for the files with '.old' appended
          made,    \* what every execution was given
          hist
vars == <<disk, old, made, hist>>
Exts == {"json", "jsongz", "hdf5", "pkl"}
\* kinds of the parameters x, y, z in the order of the dictionary; "2" is another order
Shape(p) == CASE p = "A" -> <<<<"x", "free">>, <<"y", "free">>, <<"z", "fixed">>>>
              [] p = "B" -> <<<<"x", "free">>, <<"y", "free">>, <<"z", "free">>>>
              [] p = "C" -> <<<<"y", "free">>, <<"x", "free">>, <<"z", "fixed">>>>
              [] p = "D" -> <<<<"x", "fixed">>, <<"y", "free">>, <<"z", "fixed">>>>
              [] p = "E" -> <<<<"c", "con">>, <<"x", "free">>, <<"y", "free">>, <<"z", "fixed">>>>
Names(p, k) == LET s == SelectSeq(Shape(p), LAMBDA e : e[2] = k) IN [i \in 1..Len(s) |-> s[i][1]]
Same(p, q) == Names(p, "free") = Names(q, "free") /\ Names(p, "fixed") = Names(q, "fixed") /\ Names(p, "con") = Names(q, "con")
ExtOf(c) == CASE c.save = "no" -> "none" [] c.save \in {"true", "json"} -> (IF c.gzip THEN "jsongz" ELSE "json")
             [] c.save = "hdf5" -> "hdf5" [] c.save \in {"pkl", "pickle"} -> "pkl"

Reusable(c) == LET i == disk[c.label]["json"] IN
   c.clean # "true" /\ i > 0 /\ Same(made[i].priors, c.priors) /\ made[i].meta = c.meta
Put(d, l, e, v) == IF e = "none" THEN d ELSE [d EXCEPT ![l][e] = v]

Answer(c, id, fresh) == [call |-> c, op |-> "call", id |-> id, fresh |-> fresh, resume |-> c.clean # "true", conv |-> made'[id].extra,
   search |-> Names(made'[id].priors, "free"), fixed |-> Names(made'[id].priors, "fixed"), con |-> Names(made'[id].priors, "con"),
   ratio |-> made'[id].ratio, disk |-> disk', old |-> old']
Call(c) ==
  LET e == ExtOf(c) IN
  IF Reusable(c)
  THEN LET id == disk[c.label]["json"] IN
       /\ disk' = Put(disk, c.label, e, id)
       /\ UNCHANGED <<old, made>>
       /\ hist' = Append(hist, Answer(c, id, FALSE))
  ELSE IF c.fail
  THEN /\ made' = Append(made, c)
       /\ UNCHANGED <<disk, old>>
       /\ hist' = Append(hist, [call |-> c, op |-> "failed", disk |-> disk', old |-> old', resume |-> c.clean # "true"])
  ELSE LET id == Len(made) + 1 IN
       /\ made' = Append(made, c)
       \* the first save keeps an earlier file of that name
       /\ old' = (IF e # "none" /\ disk[c.label][e] # 0 THEN Put(old, c.label, e, disk[c.label][e]) ELSE old)
       /\ disk' = Put(disk, c.label, e, id)
       /\ hist' = Append(hist, Answer(c, id, TRUE))
DamageFile(l) ==
  /\ Damage /\ disk[l]["json"] > 0
  /\ disk' = [disk EXCEPT ![l]["json"] = -1]
  /\ UNCHANGED <<old, made>>
  /\ hist' = Append(hist, [op |-> "damage", label |-> l])
Call0(l, p, m, s, g, cl, x, r, f) == [label |-> l, priors |-> p, meta |-> m, save |-> s, gzip |-> g, clean |-> cl, extra |-> x, ratio |-> r, fail |-> f]
Calls == {Call0(l, p, m, s, g, cl, x, r, f) : l \in Labels, p \in PriorSets, m \in Metas, s \in Saves, g \in {FALSE}, cl \in Cleans,
            x \in Extras, r \in {FALSE}, f \in {FALSE}}
Init == disk = [l \in Labels |-> [e \in Exts |-> 0]] /\ old = disk /\ made = <<>> /\ hist = <<>>
Next == Len(hist) < K /\ ((\E c \in Calls : Call(c)) \/ \E l \in Labels : DamageFile(l))
Spec == Init /\ [][Next]_vars
Pick(S) == RandomElement(S)
Biased(S, n) == IF Pick(1..n) = 1 THEN Pick(S) ELSE CHOOSE x \in S : TRUE
SimNext == Len(hist) < K /\
   IF Damage /\ Pick(1..8) = 1 /\ (\E l \in Labels : disk[l]["json"] > 0)
   THEN \E l \in {l \in Labels : disk[l]["json"] > 0} : DamageFile(l)
   ELSE \E c \in {Call0(Pick(Labels), IF Pick(1..3) = 1 THEN Pick(PriorSets) ELSE "A", IF Pick(1..4) = 1 THEN Pick(Metas) ELSE 1,
                        IF Pick(1..2) = 1 THEN "true" ELSE Pick(Saves), Pick(1..4) = 1,
                        IF Pick(1..2) = 1 THEN "none" ELSE Pick(Cleans), Pick(Extras), Pick(BOOLEAN), Pick(1..7) = 1)} : Call(c)
SimSpec == Init /\ [][SimNext]_vars

\* ---- design ----
Fresh(h) == h.op = "call" /\ h.fresh
\* nothing that was complete is lost by a call unless a later result of the same name was already kept
Kept == \A i \in 1..Len(hist) : hist[i].op = "call" /\ hist[i].fresh /\ ExtOf(hist[i].call) # "none" =>
            hist[i].disk[hist[i].call.label][ExtOf(hist[i].call)] = hist[i].id
OtherLabels == \A i \in 2..Len(hist) : (hist[i].op \in {"call", "failed"} /\ hist[i - 1].op \in {"call", "failed"}) =>
            \A l \in Labels \ {hist[i].call.label} : hist[i].disk[l] = hist[i - 1].disk[l] /\ hist[i].old[l] = hist[i - 1].old[l]
CleanRuns == \A i \in 1..Len(hist) : (hist[i].op = "call" /\ hist[i].call.clean = "true") => hist[i].fresh
ReuseMatches == \A i \in 1..Len(hist) : (hist[i].op = "call" /\ ~hist[i].fresh) =>
            hist[i].call.label = made[hist[i].id].label /\ Same(hist[i].call.priors, made[hist[i].id].priors)
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
