----------------------------- MODULE ResultDir ------------------------------
(* A directory of result files: which version of a result every file holds, under saving (with or without
   overwriting, to default and to own names, of results a format can and cannot hold), damage, and reading. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Labels, K
VARIABLES f,      \* [file name -> version]; only existing files; -1 damaged
          ver, hist
vars == <<f, ver, hist>>
Exts == {"json", "json.gz", "hdf5", "pkl"}
\* a name is <<label, extension>> for default names and <<stem, extension>> for own ones, with ".old" appended or not
Name(l, own, e) == (IF own THEN "my_" \o l ELSE l \o "_result") \o "." \o e
Fall(l, own, e) == (IF own THEN "my_" \o l ELSE l \o "_result") \o (IF e = "json.gz" THEN ".json" ELSE "") \o ".pkl"
Old(n) == n \o ".old"
Without(m, n) == [x \in DOMAIN m \ {n} |-> m[x]]
With(m, n, v) == [x \in DOMAIN m \cup {n} |-> IF x = n THEN v ELSE m[x]]
\* what moving an old file away does
Aside(m, n, over) == IF n \notin DOMAIN m THEN m ELSE IF over THEN Without(m, n) ELSE With(Without(m, n), Old(n), m[n])
Emit1(o) == hist' = Append(hist, o)
Save(l, e, own, over, bad) ==
  LET n == Name(l, own, e)
      fails == bad /\ e # "pkl"
      m1 == Aside(f, n, over)
      m2 == Aside(m1, Fall(l, own, e), over)
      m == IF fails THEN With(m2, Fall(l, own, e), ver + 1) ELSE With(m1, n, ver + 1) IN
  /\ f' = m /\ ver' = ver + 1
  /\ Emit1([op |-> "save", l |-> l, e |-> e, own |-> own, over |-> over, bad |-> bad, name |-> n, f |-> m, v |-> ver + 1])
Damage(n) == /\ f' = With(f, n, -1) /\ UNCHANGED ver
             /\ Emit1([op |-> "damage", name |-> n, f |-> f'])
Remove(n) == /\ f' = Without(f, n) /\ UNCHANGED ver
             /\ Emit1([op |-> "remove", name |-> n, f |-> f'])
Get(n) == IF n \in DOMAIN f THEN f[n] ELSE 0
Read(l, e, own) == /\ UNCHANGED <<f, ver>>
                   /\ Emit1([op |-> "read", l |-> l, e |-> e, own |-> own, name |-> Name(l, own, e), v |-> Get(Name(l, own, e)), f |-> f])
\* a list of files, each replaced by a pickle of the same name where it is missing
Pkl(l, own, e) == Fall(l, own, e)
ListGet(l, own, e) == IF Get(Name(l, own, e)) = 0 THEN Get(Pkl(l, own, e)) ELSE Get(Name(l, own, e))
ReadList(s, inv) == LET v == [i \in 1..Len(s) |-> ListGet(s[i][1], s[i][3], s[i][2])] IN
   /\ UNCHANGED <<f, ver>>
   /\ Emit1([op |-> "list", names |-> [i \in 1..Len(s) |-> Name(s[i][1], s[i][3], s[i][2])], inv |-> inv,
             v |-> SelectSeq(v, LAMBDA x : x > 0), fails |-> inv = "error" /\ \E i \in 1..Len(s) : v[i] <= 0, f |-> f])
Init == f = [x \in {} |-> 0] /\ ver = 0 /\ hist = <<>>
Pick(S) == RandomElement(S)
Next == Len(hist) < K /\
  \/ \E l \in Labels, e \in Exts, over \in BOOLEAN, bad \in BOOLEAN : Save(l, e, FALSE, over, bad)
  \/ \E n \in DOMAIN f : f[n] > 0 /\ Damage(n)
  \/ \E l \in Labels, e \in Exts : Read(l, e, FALSE)
Plainname(n) == \E l \in Labels, e \in Exts, own \in BOOLEAN : n = Name(l, own, e) \/ n = Fall(l, own, e)
Plain == {n \in DOMAIN f : Plainname(n)}
SimNext == Len(hist) < K /\
  \E c \in {Pick(1..10)} :
    IF c <= 5 \/ Plain = {} THEN Save(Pick(Labels), Pick(Exts), Pick(1..4) = 1, Pick(1..3) = 1, Pick(1..3) = 1)
    ELSE IF c = 6 THEN Damage(Pick(Plain))
    ELSE IF c = 7 THEN Remove(Pick(Plain))
    ELSE IF c = 8 THEN ReadList(<< <<Pick(Labels), Pick(Exts), FALSE>>, <<Pick(Labels), Pick(Exts), Pick(BOOLEAN)>>, <<Pick(Labels), "json", FALSE>> >>, Pick({"error", "warning", "ignore"}))
    ELSE Read(Pick(Labels), Pick(Exts), Pick(1..4) = 1)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

\* ---- design ----
IsSave(i) == hist[i].op = "save"
Prev(i) == IF i = 1 THEN [x \in {} |-> 0] ELSE hist[i - 1].f
\* without overwriting, everything complete before the save is still there, unless it was an '.old' of the same name
NothingLost == \A i \in 1..Len(hist) : (IsSave(i) /\ ~hist[i].over) =>
    \A n \in DOMAIN Prev(i) : (\E m \in DOMAIN hist[i].f : hist[i].f[m] = Prev(i)[n])
                               \/ \E m \in DOMAIN Prev(i) : n = Old(m)
NewThere == \A i \in 1..Len(hist) : IsSave(i) => \E n \in DOMAIN hist[i].f : hist[i].f[n] = hist[i].v
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
