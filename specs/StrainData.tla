----------------------------- MODULE StrainData -----------------------------
(* The strain data of one detector. What was set last (and what was added to it since) is the state; the time
   domain strain, frequency domain strain, arrays, mask, window factor and band are views, functions of the state,
   so neither reading a view nor the way the state was reached can show in them. Frequencies are in units of 1/2 Hz,
   roll-offs in 1/8 s. The numbers behind the layers are filled in by the harness. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Samplings, Starts, Los, His, Notches, Rolls, K
VARIABLES kind,        \* "none" | "td" | "fd": the domain of the data
          layers,      \* what the frequency domain data consist of
          samp, start, lo, hi, notch, roll, custom, wroll, \* wroll: roll-off of the window that is in the data (-1 none)
          nid, hist
vars == <<kind, layers, samp, start, lo, hi, notch, roll, custom, wroll, nid, hist>>
Dur == samp[1]
Fs == samp[2]
NBin(s) == (s[1] * s[2]) \div 2 + 1
NSam(s) == s[1] * s[2]
\* ---- views ----
Freq(k) == IF Dur = 1 THEN 2 * (k - 1) ELSE k - 1
Hi == IF hi > Fs THEN Fs ELSE hi
InNotch(x) == \E n \in notch : n[1] < x /\ x < n[2]
BandMask == [k \in 1..NBin(samp) |-> Freq(k) >= lo /\ Freq(k) <= Hi /\ ~InNotch(Freq(k))]
Mask == IF custom = <<>> THEN BandMask ELSE custom
CurLayers == IF kind = "td" THEN Append(layers, [op |-> "window", id |-> roll, m |-> <<>>]) ELSE layers
CurW == IF kind = "td" THEN roll ELSE wroll
View == IF kind = "none" THEN [kind |-> "none", hi |-> hi, lo |-> lo]
        ELSE [kind |-> kind, lay |-> CurLayers, mask |-> Mask, dur |-> Dur, fs |-> Fs, start |-> start,
              lo |-> lo, hi |-> Hi, w |-> CurW, nb |-> NBin(samp), ns |-> NSam(samp), roll |-> roll]
\* ---- operations ----
Rec(o) == hist' = Append(hist, [o EXCEPT !.v = View'])
O(op) == [op |-> op, id |-> nid + 1, s |-> samp, st |-> start, x |-> 0, y |-> 0, rd |-> "", v |-> View]
Replace(k, op, s, st) == /\ kind' = k /\ samp' = s /\ start' = st
                      /\ layers' = <<[op |-> op, id |-> nid + 1, m |-> <<>>]>>
                      /\ custom' = <<>> /\ wroll' = -1 /\ nid' = nid + 1
                      /\ UNCHANGED <<lo, hi, notch, roll>>
SetData(op, s, st, how, rd) ==
  /\ Replace(IF op \in {"td", "gwpy"} THEN "td" ELSE "fd", op, s, st)
  /\ Rec([O(op) EXCEPT !.s = s, !.st = st, !.x = how, !.rd = rd])
\* data of a wrong length are refused and change nothing
Refused(op, s, st, how, rd) == /\ UNCHANGED <<kind, layers, samp, start, lo, hi, notch, roll, custom, wroll, nid>>
                       /\ Rec([O(op) EXCEPT !.s = s, !.st = st, !.x = how, !.rd = rd])
Put(rd) == /\ kind # "none" /\ kind' = "fd" /\ layers' = <<[op |-> "fd", id |-> nid + 1, m |-> <<>>]>>
           /\ wroll' = CurW /\ nid' = nid + 1 /\ UNCHANGED <<samp, start, lo, hi, notch, roll, custom>>
           /\ Rec([O("put") EXCEPT !.rd = rd])
Add(rd) == /\ kind # "none" /\ kind' = "fd"
           /\ layers' = CurLayers \o << [op |-> "mask", id |-> 0, m |-> Mask], [op |-> "add", id |-> nid + 1, m |-> <<>>] >>
           /\ wroll' = CurW /\ nid' = nid + 1 /\ UNCHANGED <<samp, start, lo, hi, notch, roll, custom>>
           /\ Rec([O("add") EXCEPT !.rd = rd])
Band(op, x, rd) == /\ lo' = IF op = "lo" THEN x ELSE lo
                   /\ hi' = IF op = "hi" THEN x ELSE hi
                   /\ custom' = <<>>
                   /\ UNCHANGED <<kind, layers, samp, start, notch, roll, wroll, nid>>
                   /\ Rec([O(op) EXCEPT !.x = x, !.rd = rd])
SetNotch(x, rd) == /\ notch' = x /\ custom' = <<>>
                /\ UNCHANGED <<kind, layers, samp, start, lo, hi, roll, wroll, nid>>
                /\ Rec([O("notch") EXCEPT !.y = x, !.rd = rd])
Roll(x, rd) == /\ roll' = x
               /\ UNCHANGED <<kind, layers, samp, start, lo, hi, notch, custom, wroll, nid>>
               /\ Rec([O("roll") EXCEPT !.x = x, !.rd = rd])
Custom(rd) == /\ kind # "none"
              /\ custom' = [k \in 1..NBin(samp) |-> k \in {2, 3, 5}]
              /\ UNCHANGED <<kind, layers, samp, start, lo, hi, notch, roll, wroll, nid>>
              /\ Rec([O("mask") EXCEPT !.y = custom', !.rd = rd])
Start(t, rd) == /\ kind # "none" /\ start' = t
                /\ UNCHANGED <<kind, layers, samp, lo, hi, notch, roll, custom, wroll, nid>>
                /\ Rec([O("start") EXCEPT !.x = t, !.rd = rd])
\* continue with a copy while the original is overwritten
Copy(rd) == /\ UNCHANGED <<kind, layers, samp, start, lo, hi, notch, roll, custom, wroll, nid>>
            /\ Rec([O("copy") EXCEPT !.rd = rd])
Sets == {"td", "fd", "zero", "psd", "gwpy"}
Init == /\ kind = "none" /\ layers = <<>> /\ samp = <<1, 8>> /\ start = 0 /\ lo = 0 /\ hi = 99 /\ notch = {} /\ roll = 1
        /\ custom = <<>> /\ wroll = -1 /\ nid = 0 /\ hist = <<>>
Reads == {"", "all"}
Next == Len(hist) < K /\ \E rd \in Reads :
  \/ \E op \in Sets, s \in Samplings : SetData(op, s, 0, "fs", rd)
  \/ \E op \in {"td", "fd"}, s \in Samplings, t \in Starts : SetData(op, s, t, "array", rd)
  \/ Refused("badtd", <<2, 16>>, 5, "fs", rd)
  \/ Refused("badfd", <<2, 16>>, 5, "array", rd)
  \/ Put(rd) \/ Add(rd) \/ Custom(rd) \/ Copy(rd)
  \/ \E x \in Los : Band("lo", x, rd)
  \/ \E x \in His : Band("hi", x, rd)
  \/ \E x \in Notches : SetNotch(x, rd)
  \/ \E x \in Rolls : Roll(x, rd)
  \/ \E x \in Starts : Start(x, rd)
Pick(S) == RandomElement(S)
SimNext == Len(hist) < K /\
  \E c \in {IF kind = "none" THEN Pick({1, 2, 12}) ELSE Pick(1..22)}, rd \in {Pick({"", "", "all", "td", "fd", "mask", "w", "arr"})} :
    IF c <= 4 THEN SetData(Pick(Sets), Pick(Samplings), Pick(Starts), "fs", rd)
    ELSE IF c <= 5 THEN SetData(Pick({"td", "fd"}), Pick(Samplings), Pick(Starts), "array", rd)
    ELSE IF c <= 6 THEN Refused(Pick({"badtd", "badfd"}), Pick(Samplings), Pick(Starts), Pick({"fs", "array"}), rd)
    ELSE IF c = 7 THEN Put(rd) ELSE IF c <= 9 THEN Add(rd) ELSE IF c = 10 THEN Custom(rd) ELSE IF c = 11 THEN Copy(rd)
    ELSE IF c <= 13 THEN Band("lo", Pick(Los), rd) ELSE IF c <= 15 THEN Band("hi", Pick(His), rd)
    ELSE IF c <= 17 THEN SetNotch(Pick(Notches), rd) ELSE IF c <= 20 THEN Roll(Pick(Rolls), rd) ELSE Start(Pick(Starts), rd)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
\* ---- design ----
MaskFits == kind # "none" => Len(Mask) = NBin(samp)
HiLegal == kind # "none" => Hi <= Fs
WindowRight == (kind = "td" => CurW = roll) /\ (kind = "fd" /\ Len(layers) = 1 /\ layers[1].op \in {"zero", "psd"} => CurW = -1)
\* setting data anew after any history gives the views of the same operation on a fresh object with this band
Fresh == \A i \in 1..Len(hist) : (hist[i].op \in Sets) =>
            (hist[i].v.mask = BandMask \/ i # Len(hist)) /\ hist[i].v.dur = hist[i].s[1] /\ hist[i].v.start = hist[i].st
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
