------------------------------ MODULE PriorText ------------------------------
(* The printed form of a prior and its scanner.                               *)
(*                                                                            *)
(* A description is a sequence of arguments; an argument is a number, None, a *)
(* string of arbitrary characters, a list of numbers or another description.  *)
(* Spell gives its characters.  The scanner reads them one by one, keeping    *)
(* whether it is within quotes and how many brackets are open, and splits at  *)
(* the commas outside of both.  What it finds must be the arguments which     *)
(* were written, at every level.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Alphabet,     \* characters a string may contain: those below and "letter"
          MaxLen,       \* of a string
          Shapes,       \* shapes of descriptions: sequences of kinds
          Sample

VARIABLES d, text, i, quote, depth, args, done
vars == <<d, text, i, quote, depth, args, done>>

Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Has(s, c) == \E k \in DOMAIN s : s[k] = c
\* the quotes which the printed form uses
Q(s) == IF Has(s, "sq") THEN "dq" ELSE "sq"
Writable(s) == ~(Has(s, "sq") /\ Has(s, "dq"))

RECURSIVE Join(_, _)
Join(parts, n) == IF n > Len(parts) THEN <<>>
                  ELSE (IF n > 1 THEN <<"comma", "space">> ELSE <<>>) \o parts[n] \o Join(parts, n + 1)

ArgText(a) ==
    <<"key", "eq">> \o
    CASE a.kind = "num"  -> <<"digit">>
      [] a.kind = "none" -> <<"word">>
      [] a.kind = "str"  -> <<Q(a.s)>> \o a.s \o <<Q(a.s)>>
      [] a.kind = "list" -> <<"open", "digit", "comma", "space", "digit", "close">>
      [] a.kind = "nest" -> <<"word", "open", "key", "eq", "digit", "comma", "space", "key", "eq", Q(a.s)>>
                            \o a.s \o <<Q(a.s), "close">>
Spell(x) == Join([k \in 1..Len(x) |-> ArgText(x[k])], 1)

Step(st, c) ==
    IF st.quote # "no"
    THEN [st EXCEPT !.quote = IF c = st.quote THEN "no" ELSE @,
                    !.args[Len(st.args)] = Append(@, c)]
    ELSE CASE c = "space" -> st
           [] c \in {"sq", "dq"} -> [st EXCEPT !.quote = c, !.args[Len(st.args)] = Append(@, c)]
           [] c = "open"  -> [st EXCEPT !.depth = @ + 1, !.args[Len(st.args)] = Append(@, c)]
           [] c = "close" -> [st EXCEPT !.depth = @ - 1, !.args[Len(st.args)] = Append(@, c)]
           [] c = "comma" /\ st.depth = 0 -> [st EXCEPT !.args = Append(@, <<>>)]
           [] OTHER -> [st EXCEPT !.args[Len(st.args)] = Append(@, c)]

RECURSIVE Scan(_, _)
Scan(st, t) == IF t = <<>> THEN st.args ELSE Scan(Step(st, Head(t)), Tail(t))
Fresh == [quote |-> "no", depth |-> 0, args |-> <<(<<>>)>>]

Make(shape, s) == [k \in 1..Len(shape) |-> [kind |-> shape[k], s |-> s]]

Init == /\ \E shape \in Shapes, s \in IF Sample THEN {<<>>} ELSE {x \in Strings : Writable(x)} :
              d = Make(shape, s)
        /\ text = <<>> /\ i = 0
        /\ quote = "no" /\ depth = 0 /\ args = <<(<<>>)>> /\ done = FALSE

Draw == /\ i = 0 /\ Sample
        /\ \E s \in {[k \in 1..RandomElement(0..MaxLen) |-> RandomElement(Alphabet)]} :
           \E shape \in {RandomElement(Shapes)} :
              /\ Writable(s)
              /\ d' = Make(shape, s)
              /\ text' = Spell(Make(shape, s))
        /\ i' = 1 /\ UNCHANGED <<quote, depth, args, done>>
Write == /\ i = 0 /\ ~Sample
         /\ text' = Spell(d) /\ i' = 1
         /\ UNCHANGED <<d, quote, depth, args, done>>
Read == /\ i > 0 /\ i <= Len(text)
        /\ \E st \in {Step([quote |-> quote, depth |-> depth, args |-> args], text[i])} :
              /\ quote' = st.quote /\ depth' = st.depth /\ args' = st.args
        /\ i' = i + 1 /\ UNCHANGED <<d, text, done>>
End == /\ i > Len(text) /\ i > 0 /\ ~done /\ done' = TRUE
       /\ UNCHANGED <<d, text, i, quote, depth, args>>
Next == Draw \/ Write \/ Read \/ End
Spec == Init /\ [][Next]_vars

\* without the spaces which are not part of a string
Bare(a) == LET t == Scan(Fresh, ArgText(a)) IN t[1]
Inner(t) == SubSeq(t, 5, Len(t) - 1)       \* key = word ( ... )

Split == done => /\ Len(args) = Len(d)
                 /\ \A k \in 1..Len(d) : args[k] = Bare(d[k])
StringsKept == done => \A k \in 1..Len(d) :
    /\ d[k].kind = "str" => args[k] = <<"key", "eq", Q(d[k].s)>> \o d[k].s \o <<Q(d[k].s)>>
    /\ d[k].kind = "nest" =>
         LET in == Scan(Fresh, Inner(args[k]))
         IN  Len(in) = 2 /\ in[2] = <<"key", "eq", Q(d[k].s)>> \o d[k].s \o <<Q(d[k].s)>>
Closed == done => quote = "no" /\ depth = 0
Emit == done => PrintT("@@E " \o ToJson([shape |-> [k \in 1..Len(d) |-> d[k].kind], s |-> d[1].s]))
=============================================================================
