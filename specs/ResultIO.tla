------------------------------ MODULE ResultIO ------------------------------
(* What a stored result contains, as trees of kinds of values, and what every file format makes of it.

   A tree is a leaf [k |-> kind] or a container [k |-> "dict" | "tuple" | "list", keys, c] of trees.  Conv(f, t) is the
   tree read back after a tree was written in format f; Can(f, t) says whether the format can hold it, otherwise
   the result ends up complete in a pickle file instead.  Numbers of numpy become equal plain numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, K, MaxD, Formats

VARIABLES val,    \* tree stored in every slot
          seed, hops, hist
vars == <<val, seed, hops, hist>>
Slots == {"meta", "inj", "skw"}
Scalars == {"npint", "npint32", "npfloat", "npfloat32", "npbool", "npcomplex", "npc64"}
Plain(k) == CASE k \in {"npint", "npint32"} -> "int" [] k \in {"npfloat", "npfloat32"} -> "float" [] k = "npbool" -> "bool"
              [] k \in {"npcomplex", "npc64"} -> "complex" [] OTHER -> k
Leaf(k) == [k |-> k, keys |-> <<>>, c |-> <<>>]
Node(k, ks, cs) == [k |-> k, keys |-> ks, c |-> cs]
Digits == <<"0", "1", "2">>

ConvKind(f, k, slot, top) ==
  IF slot = "skw" /\ top /\ k \in {"func", "cls"} /\ f # "pkl" THEN "s_" \o k
  ELSE IF f = "pkl" THEN k
  ELSE IF f \in {"json", "jsongz"} THEN Plain(k)
  ELSE CASE k = "arrs" -> "list_s" [] k = "list_i" -> "arri" [] k = "list_f" -> "arrf" [] k = "list_l" -> "arri2"
         [] k = "list_0" -> "arr0" [] k = "td" -> "tds" [] OTHER -> Plain(k)
RECURSIVE Conv(_, _, _, _)
Conv(f, t, slot, top) ==
  IF t.k \in {"dict", "tuple", "list"}
  THEN LET cs == [i \in 1..Len(t.c) |-> Conv(f, t.c[i], slot, FALSE)] IN
       Node(IF t.k = "tuple" /\ f \in {"json", "jsongz"} THEN "list" ELSE IF t.k = "tuple" /\ f = "hdf5" THEN "dict" ELSE t.k,
            IF t.k = "tuple" /\ f = "hdf5" THEN [i \in 1..Len(t.c) |-> Digits[i]] ELSE t.keys, cs)
  ELSE IF t.k = "df" /\ f = "hdf5" THEN Node("dict", <<"a", "b">>, <<Leaf("arrf"), Leaf("arri")>>)
  ELSE Leaf(ConvKind(f, t.k, slot, top))
\* HDF5 has no lists of anything but numbers or strings, no booleans in lists and no prior objects
NoHdf == {"list_b", "series", "prior"}
RECURSIVE Can(_, _, _, _)
Can(f, t, slot, top) ==
  \/ f = "pkl"
  \/ slot = "skw" /\ top /\ t.k = "prior"      \* stored by name
  \/ /\ ~(f = "hdf5" /\ t.k \in NoHdf)
     /\ ~(f = "hdf5" /\ t.k \in {"func", "cls"} /\ slot # "meta" /\ ~(slot = "skw" /\ top))
     /\ \A i \in 1..Len(t.c) : Can(f, t.c[i], slot, FALSE)
CanAll(f) == \A s \in Slots : Can(f, val[s], s, TRUE)

\* functions and priors only where a format has a defined image for them
RECURSIVE Has(_, _)
Has(t, S) == t.k \in S \/ \E i \in 1..Len(t.c) : Has(t.c[i], S)
Allowed(s, t) == ~(s = "inj" /\ Has(t, {"func", "cls"})) /\ ~(s = "skw" /\ Has(t, {"prior"})) /\ ~(s = "skw" /\ \E i \in 1..Len(t.c) : Has(t.c[i], {"func", "cls"}))

\* lists of arbitrary things become arrays or lists of strings in HDF5, depending on what is in them: not described here
Described(f) == f = "hdf5" => \A s \in Slots : ~Has(val[s], {"list"})
Hop(f, mode) ==
  LET ok == CanAll(f) g == IF ok THEN f ELSE "pkl" IN
  /\ Described(f)
  /\ val' = [s \in Slots |-> Conv(g, val[s], s, TRUE)]
  /\ hops' = hops + 1 /\ UNCHANGED seed
  /\ hist' = Append(hist, [op |-> "hop", f |-> f, mode |-> mode, ok |-> ok, val |-> val', ordered |-> g # "hdf5"])
Start == <<Leaf("none"), Leaf("none")>>
Init == /\ \E k \in Kinds : /\ seed = k
                            /\ val = [s \in Slots |-> IF Allowed(s, Leaf(k)) THEN Leaf(k) ELSE Leaf("float")]
        /\ hops = 0
        /\ hist = << [op |-> "start", val |-> val] >>
Next == hops < K /\ \E f \in Formats, m \in {"label"} : Hop(f, m)
Spec == Init /\ [][Next]_vars

Pick(S) == RandomElement(S)
RECURSIVE RTree(_, _)
RTree(s, d) == IF d = 0 \/ Pick(1..3) = 1 THEN LET l == Leaf(Pick(Kinds)) IN IF Allowed(s, l) THEN l ELSE Leaf("int")
               ELSE LET n == Pick(0..3) cs == [i \in 1..n |-> RTree(s, d - 1)] kind == Pick({"dict", "dict", "tuple", "list"} \cup {"dict"}) IN
                    Node(kind, IF kind = "dict" THEN [i \in 1..n |-> <<"zeta", "alpha", "mu">>[i]] ELSE <<>>, cs)
SInit == /\ seed = "" /\ hops = -1 /\ hist = <<>> /\ val = [s \in Slots |-> Leaf("none")]
Guard(s, t) == IF Allowed(s, t) THEN t ELSE Leaf("float")
SNext == IF hops = -1
         THEN /\ hops' = 0 /\ seed' = ""
              /\ \E a \in {RTree("meta", MaxD)}, b \in {RTree("inj", MaxD)}, c \in {RTree("skw", MaxD)} :
                    val' = [s \in Slots |-> Guard(s, IF s = "meta" THEN a ELSE IF s = "inj" THEN b ELSE c)]
              /\ hist' = << [op |-> "start", val |-> val'] >>
         ELSE hops < K /\ \E f \in {Pick({g \in Formats : Described(g)})}, m \in {Pick({"label", "file"})} : Hop(f, m)
SimSpec == SInit /\ [][SNext]_vars

\* ---- design: what the formats do settles: a second pass in the same format changes nothing ----
Idempotent == \A f \in Formats : \A s \in Slots : LET t == Conv(f, val[s], s, TRUE) IN
     Can(f, val[s], s, TRUE) => (Can(f, t, s, TRUE) /\ Conv(f, t, s, TRUE) = t)
PickleExact == \A s \in Slots : Conv("pkl", val[s], s, TRUE) = val[s]
Emit == hops = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
