----------------------------- MODULE Evaluations -----------------------------
(* A waveform generator. The state is what was set (sampling, source models, conversion, arguments, last parameters);
   the value of an evaluation is a function of it: there is no memory of earlier evaluations. Values "raise" where the
   source model refuses the parameters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Samplings, Starts, Vals, Modes, Arrs, K
VARIABLES samp, start, fd, td, conv, arg, par, hist
vars == <<samp, start, fd, td, conv, arg, par, hist>>
NoPar == [a |-> 0, b |-> 0, arr |-> 0, has |-> FALSE]
Bad == 9 \* a value of a for which the source models raise
\* what a source model is given; conversion k turns b into b + k
Stored(p) == [a |-> p.a, b |-> p.b + conv, arr |-> p.arr, has |-> TRUE]
\* the model which answers in a domain, and whether the answer is transformed
Used(dom) == IF dom = "fd" THEN (IF fd > 0 THEN <<"fd", fd>> ELSE <<"td", td>>)
             ELSE (IF td > 0 THEN <<"td", td>> ELSE <<"fd", fd>>)
Value(dom) == IF par.a = Bad THEN [raise |-> TRUE]
              ELSE [raise |-> FALSE, m |-> Used(dom)[1], v |-> Used(dom)[2], a |-> par.a, b |-> par.b, arr |-> par.arr,
                    mode |-> arg.mode, aarr |-> arg.arr, dur |-> samp[1], fs |-> samp[2], st |-> start]
Step(o) == hist' = Append(hist, o)
O(op, x) == [op |-> op, x |-> x, dur |-> samp'[1], fs |-> samp'[2], st |-> start', out |-> [raise |-> FALSE]]
Keep(v) == UNCHANGED v
Pars == [a : Vals, b : Vals, arr : Arrs]
Eval(dom, p) == /\ par' = Stored(p)
                /\ UNCHANGED <<samp, start, fd, td, conv, arg>>
                /\ Step([O("eval", [dom |-> dom, p |-> p]) EXCEPT !.out = Value(dom)'])
Again(dom) == /\ par.has /\ UNCHANGED <<samp, start, fd, td, conv, arg, par>>
              /\ Step([O("again", dom) EXCEPT !.out = Value(dom)])
\* a required parameter is missing: refused, nothing is changed
Missing(dom) == UNCHANGED <<samp, start, fd, td, conv, arg, par>> /\ Step(O("missing", dom))
SetPar(p) == par' = Stored(p) /\ UNCHANGED <<samp, start, fd, td, conv, arg>> /\ Step(O("setpar", p))
EditPar(a) == par.has /\ par' = [par EXCEPT !.a = a] /\ UNCHANGED <<samp, start, fd, td, conv, arg>> /\ Step(O("editpar", a))
SetSamp(s, how) == samp' = s /\ UNCHANGED <<start, fd, td, conv, arg, par>> /\ Step(O("samp", [how |-> how]))
SetStart(t) == start' = t /\ UNCHANGED <<samp, fd, td, conv, arg, par>> /\ Step(O("start", t))
SetFd(m) == (m > 0 \/ td > 0) /\ fd' = m /\ UNCHANGED <<samp, start, td, conv, arg, par>> /\ Step(O("fd", m))
SetTd(m) == (m > 0 \/ fd > 0) /\ td' = m /\ UNCHANGED <<samp, start, fd, conv, arg, par>> /\ Step(O("td", m))
SetConv(k) == conv' = k /\ UNCHANGED <<samp, start, fd, td, arg, par>> /\ Step(O("conv", k))
Mode(m) == arg' = [arg EXCEPT !.mode = m] /\ UNCHANGED <<samp, start, fd, td, conv, par>> /\ Step(O("mode", m))
\* the array argument: replaced, or changed in place
ArgArr(x, how) == arg' = [arg EXCEPT !.arr = x] /\ UNCHANGED <<samp, start, fd, td, conv, par>> /\ Step(O("argarr", [x |-> x, how |-> how]))
Args(m, x) == arg' = [mode |-> m, arr |-> x] /\ UNCHANGED <<samp, start, fd, td, conv, par>> /\ Step(O("args", [mode |-> m, arr |-> x]))
\* the caller rearranges the dictionary of arrays which was returned
Tamper == UNCHANGED <<samp, start, fd, td, conv, arg, par>> /\ Step(O("tamper", 0))
Copy == UNCHANGED <<samp, start, fd, td, conv, arg, par>> /\ Step(O("copy", 0))
Init == /\ samp = <<2, 16>> /\ start = 0 /\ fd = 1 /\ td \in {0, 1} /\ conv = 0 /\ arg = [mode |-> 0, arr |-> 0]
        /\ par = NoPar /\ hist = <<[op |-> "init", x |-> td, dur |-> 2, fs |-> 16, st |-> 0, out |-> [raise |-> FALSE]]>>
Doms == {"fd", "td"}
Next == Len(hist) < K /\
  (\/ \E d \in Doms, p \in Pars : Eval(d, p)
   \/ \E d \in Doms : Again(d) \/ Missing(d)
   \/ \E p \in Pars : SetPar(p)
   \/ \E a \in Vals : EditPar(a)
   \/ \E s \in Samplings : SetSamp(s, "fs")
   \/ \E t \in Starts : SetStart(t)
   \/ \E m \in 0..2 : SetFd(m) \/ SetTd(m)
   \/ \E k \in 0..1 : SetConv(k)
   \/ \E m \in Modes : Mode(m)
   \/ \E x \in Arrs, h \in {"new", "place"} : ArgArr(x, h)
   \/ Tamper)
\* evaluations with one change between them, in every combination
FocusNext == Len(hist) < K /\
  LET n == Len(hist) IN
  \/ n \in {1, 3} /\ \E d \in Doms : \/ \E p \in Pars : Eval(d, p)
                                     \/ Again(d) \/ Missing(d)
  \/ n = 2 /\ \/ \E p \in Pars : SetPar(p)
              \/ \E a \in Vals \cup {Bad} : EditPar(a)
              \/ \E s \in Samplings : SetSamp(s, "fs")
              \/ \E t \in Starts : SetStart(t)
              \/ \E m \in 0..2 : SetFd(m) \/ SetTd(m)
              \/ \E k \in 0..1 : SetConv(k)
              \/ \E m \in Modes : Mode(m)
              \/ \E x \in Arrs, h \in {"new", "place"} : ArgArr(x, h)
              \/ \E m \in Modes, x \in Arrs : Args(m, x)
              \/ Tamper \/ Copy \/ \E d \in Doms : Missing(d)
Pick(S) == RandomElement(S)
SimNext == Len(hist) < K /\
  \E c \in {Pick(1..26)}, p \in {Pick(Pars)}, d \in {Pick(Doms)}, x \in {Pick(Arrs)}, m \in {Pick(0..2)} :
    IF c <= 6 THEN Eval(d, IF c = 1 THEN [p EXCEPT !.a = Bad] ELSE p)
    ELSE IF c <= 11 THEN (IF par.has THEN Again(d) ELSE Eval(d, p))
    ELSE IF c = 12 THEN Missing(d) ELSE IF c = 13 THEN SetPar(p)
    ELSE IF c = 14 THEN (IF par.has THEN EditPar(p.a) ELSE Copy)
    ELSE IF c <= 16 THEN SetSamp(Pick(Samplings), Pick({"fs", "freq", "time"}))
    ELSE IF c = 17 THEN SetStart(Pick(Starts))
    ELSE IF c = 18 THEN (IF m > 0 \/ td > 0 THEN SetFd(m) ELSE Copy)
    ELSE IF c = 19 THEN (IF m > 0 \/ fd > 0 THEN SetTd(m) ELSE Copy)
    ELSE IF c = 20 THEN SetConv(Pick(0..1)) ELSE IF c = 21 THEN Mode(Pick(Modes))
    ELSE IF c <= 23 THEN ArgArr(x, Pick({"new", "place"})) ELSE IF c = 24 THEN Args(Pick(Modes), x)
    ELSE IF c = 25 THEN Tamper ELSE Copy
Spec == Init /\ [][Next]_vars
FocusSpec == Init /\ [][FocusNext]_vars
SimSpec == Init /\ [][SimNext]_vars
\* ---- design ----
\* two evaluations with the same settings and parameters give the same value, whatever lies between
Same == \A i, j \in 1..Len(hist) : i < j /\ hist[i].op = "eval" /\ hist[j].op = "eval" /\ hist[i].x = hist[j].x
            /\ (\A k \in i..j : hist[k].op \in {"eval", "again", "missing", "setpar", "editpar", "tamper", "copy"}) => hist[i].out = hist[j].out
SomeModel == fd > 0 \/ td > 0
\* an evaluation shows every input
Shows == \A i \in 1..Len(hist) : hist[i].op \in {"eval", "again"} /\ ~hist[i].out.raise =>
            hist[i].out.dur = hist[i].dur /\ hist[i].out.fs = hist[i].fs /\ hist[i].out.st = hist[i].st
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
