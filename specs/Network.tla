------------------------------- MODULE Network ------------------------------
(* A network of detectors: detectors with data of some duration, sampling rate and start time, lists that may only
   hold detectors that agree in these, and signals added to the data of one detector or of all in a list. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dets, Group, Settings, Bands, Masses, K, MaxSig
VARIABLES set,   \* detector -> index of its setting (0: no data)
          band,  \* detector -> lower band edge (Hz)
          sig,   \* detector -> signals in its data: sequence of [id, lo]
          last,  \* detector -> what the meta data record: 0 or the last signal
          list, nsig, hist
vars == <<set, band, sig, last, list, nsig, hist>>
Range(s) == {s[i] : i \in 1..Len(s)}
\* settings are [dur, fs, st] where st is in units of 1e-6 s; those within 1e-5 s agree
Abs(x) == IF x < 0 THEN -x ELSE x
Agree(a, b) == IF set[a] = 0 \/ set[b] = 0 THEN set[a] = set[b]
               ELSE LET x == Settings[set[a]]  y == Settings[set[b]] IN
                    x.dur = y.dur /\ x.fs = y.fs /\ Abs(x.st - y.st) <= 9
\* the comparison is with the first detector of the list
Consistent(l) == \A i \in 1..Len(l) : Agree(l[1], l[i])
\* does a signal of this mass fit into the data of the detector?
Fits(m, d) == m = "heavy" \/ (m = "mid" /\ (band[d] = 20 \/ Settings[set[d]].dur = 8))
State == [list |-> list', set |-> set', band |-> band', sig |-> sig', last |-> last']
Rec(o) == hist' = Append(hist, [o EXCEPT !.s = State])
O(op) == [op |-> op, ok |-> TRUE, x |-> 0, l |-> <<>>, id |-> 0, m |-> "", how |-> "", s |-> 0]
\* ---- changing a list ----
Change(op, new, arg, pos, how) ==
   LET ok == Consistent(new) IN
   /\ list' = IF ok THEN new ELSE list
   /\ UNCHANGED <<set, band, sig, last, nsig>>
   /\ Rec([O(op) EXCEPT !.ok = ok, !.l = arg, !.x = pos, !.how = how])
Ins(l, i, d) == SubSeq(l, 1, i) \o <<d>> \o SubSeq(l, i + 1, Len(l))
New(l) == \A i, j \in 1..Len(l) : i # j => l[i] # l[j]
Free == Dets \ Range(list)
BuildL(l, how) == New(l) /\ Change("build", l, l, 0, how)
AppendD(d) == d \in Free /\ Change("append", Append(list, d), <<d>>, 0, "")
Joined(op, l, how) == New(list \o l) /\ (op = "appendlist" => Consistent(l)) /\ Change(op, list \o l, l, 0, how)
InsertD(i, d) == d \in Free /\ Change("insert", Ins(list, i, d), <<d>>, i, "")
\* ---- data ----
ResetData(D, k, op, how) == /\ set' = [d \in Dets |-> IF d \in D THEN k ELSE set[d]]
                            /\ sig' = [d \in Dets |-> IF d \in D THEN <<>> ELSE sig[d]]
                            /\ UNCHANGED <<band, last, list, nsig>>
                            /\ Rec([O(op) EXCEPT !.x = k, !.l = IF op = "setone" THEN CHOOSE s \in {<<d>> : d \in D} : TRUE ELSE <<>>, !.how = how])
SetBand(d, b) == /\ band' = [band EXCEPT ![d] = b]
                 /\ UNCHANGED <<set, sig, last, list, nsig>>
                 /\ Rec([O("band") EXCEPT !.l = <<d>>, !.x = b])
\* ---- injections ----
Put(D, m) == LET e(d) == [id |-> nsig + 1, lo |-> band[d], m |-> m] IN
   /\ sig' = [d \in Dets |-> IF d \in D THEN Append(sig[d], e(d)) ELSE sig[d]]
   /\ last' = [d \in Dets |-> IF d \in D THEN nsig + 1 ELSE last[d]]
   /\ nsig' = nsig + 1
\* data contain whatever was in band when the next signal was added: lower edges only ever rise in the content
Inject(D, op, m, how, strict) ==
   /\ D # {} /\ \A d \in D : set[d] # 0
   /\ UNCHANGED <<set, band, list>>
   /\ IF strict /\ \E d \in D : ~Fits(m, d)
      THEN UNCHANGED <<sig, last, nsig>> /\ Rec([O(op) EXCEPT !.ok = FALSE, !.l = IF op = "one" THEN <<CHOOSE d \in D : TRUE>> ELSE <<>>, !.m = m, !.how = how, !.id = nsig + 1, !.x = 1])
      ELSE Put(D, m) /\ Rec([O(op) EXCEPT !.l = IF op = "one" THEN <<CHOOSE d \in D : TRUE>> ELSE <<>>, !.m = m, !.how = how, !.id = nsig + 1, !.x = IF strict THEN 1 ELSE 0])
\* the list is written to a file and read back; or every detector is
Reload(how) == /\ UNCHANGED <<set, band, sig, last, list, nsig>> /\ Rec([O("reload") EXCEPT !.how = how])
Room == nsig < MaxSig
Init == /\ set = [d \in Dets |-> 0] /\ band = [d \in Dets |-> 20] /\ sig = [d \in Dets |-> <<>>]
        /\ last = [d \in Dets |-> 0] /\ list = <<>> /\ nsig = 0 /\ hist = <<>>
Hows == {"pol", "gen"}
Next == Len(hist) < K /\
  \/ \E k \in 1..Len(Settings), d \in Dets : ResetData({d}, k, "setone", "zero")
  \/ \E k \in 1..Len(Settings) : list # <<>> /\ ResetData(Range(list), k, "setall", "psd")
  \/ \E d \in Dets : AppendD(d)
  \/ \E d \in Dets : InsertD(0, d)
  \/ \E a \in Dets, b \in Dets : a # b /\ BuildL(<<a, b>>, "")
  \/ \E d \in Dets, b \in Bands : b # band[d] /\ SetBand(d, b)
  \/ \E m \in Masses : Room /\ Consistent(list) /\ Inject(Range(list), "all", m, "pol", TRUE)
  \/ \E m \in Masses, d \in Dets : Room /\ Inject({d}, "one", m, "gen", TRUE)
  \/ Consistent(list) /\ Reload("list")
Pick(S) == RandomElement(S)
RSeq == LET a == Pick(Dets) IN LET b == Pick(Dets) IN IF Pick(1..5) = 1 THEN Group ELSE IF a = b THEN <<a>> ELSE <<a, b>>
HasData == \A d \in Range(list) : set[d] # 0
SimNext == Len(hist) < K /\
  \E c \in {IF Len(hist) = 0 THEN 1 ELSE Pick(1..24)}, l \in {RSeq}, d \in {Pick(Dets)}, k \in {Pick({1, 1, 1, 2, 3, 4})}, dd \in {Pick(Dets)} :
    IF c = 1 THEN ResetData(Dets, k, "setdets", Pick({"zero", "psd", "td"}))
    ELSE IF c <= 3 THEN ResetData({d}, k, "setone", Pick({"zero", "psd", "td"}))
    ELSE IF c <= 5 /\ list # <<>> THEN ResetData(Range(list), k, "setall", Pick({"zero", "psd"}))
    ELSE IF c <= 6 THEN BuildL(l, Pick({"", "gen"}))
    ELSE IF c <= 9 /\ Free # {} THEN AppendD(Pick(Free))
    ELSE IF c <= 12 /\ Free # {} THEN InsertD(Pick(0..Len(list)), Pick(Free))
    ELSE IF c <= 14 /\ New(list \o l) THEN Joined(IF Consistent(l) THEN Pick({"extend", "appendlist", "iadd"}) ELSE Pick({"extend", "iadd"}), l, "")
    ELSE IF c <= 16 THEN SetBand(d, Pick(Bands))
    ELSE IF c <= 20 /\ Room /\ list # <<>> /\ HasData /\ Consistent(list) THEN Inject(Range(list), "all", Pick(Masses), Pick(Hows), Pick(BOOLEAN))
    ELSE IF c <= 22 /\ Room /\ set[dd] # 0 THEN Inject({dd}, "one", Pick(Masses), Pick(Hows), Pick(BOOLEAN))
    ELSE Reload(IF Consistent(list) THEN Pick({"list", "single", "text"}) ELSE Pick({"single", "text"}))
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
\* ---- design ----
\* right after a list was changed its members agree; a refused change or injection changes nothing
ListOps == {"build", "append", "insert", "extend", "appendlist", "iadd"}
Agreeing == (Len(hist) > 0 /\ hist[Len(hist)].op \in ListOps /\ hist[Len(hist)].ok) => Consistent(list)
Untouched == \A i \in 2..Len(hist) : ~hist[i].ok => hist[i].s = hist[i - 1].s
Once == \A d \in Dets : \A i, j \in 1..Len(sig[d]) : i # j => sig[d][i].id # sig[d][j].id
NoDouble == New(list)
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
