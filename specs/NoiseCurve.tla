----------------------------- MODULE NoiseCurve -----------------------------
(* The noise curve of a detector, and a detector using it: two detectors share the curve, whose value at any
   frequencies depends on the curve set last; the detector multiplies it by the window factor of its data. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Curves, Grids, K
VARIABLES curve, own, win, hist  \* own: the curve the second detector has of its own (0: shares the first)
vars == <<curve, own, win, hist>>
Step(o) == hist' = Append(hist, o)
O(op, x, y) == [op |-> op, x |-> x, y |-> y, out |-> 0, w |-> 0]
Set(how, c) == curve' = c /\ UNCHANGED <<own, win>> /\ Step(O("set", c, how))
Refused(how) == UNCHANGED <<curve, own, win>> /\ Step(O("refused", 0, how))
Eval(which, g) == UNCHANGED <<curve, own, win>> /\ Step([O(which, g, 0) EXCEPT !.out = curve])
\* the caller changes the array of frequencies or the returned values
Tamper(x) == UNCHANGED <<curve, own, win>> /\ Step(O("tamper", 0, x))
Read(d) == UNCHANGED <<curve, own, win>> /\ Step([O("read", d, 0) EXCEPT !.out = IF d = 2 /\ own > 0 THEN own ELSE curve, !.w = win[d]])
Data(d, w) == win' = [win EXCEPT ![d] = w] /\ UNCHANGED <<curve, own>> /\ Step(O("data", d, w))
Own(c) == own' = c /\ UNCHANGED <<curve, win>> /\ Step(O("own", c, 0))
Init == curve = 1 /\ own = 0 /\ win = <<0, 0>> /\ hist = <<>>
How == {"psd", "asd", "psdfile", "asdfile"}
Next == Len(hist) < K /\
  (\/ \E h \in {"psd", "asd", "psdfile"}, c \in Curves : Set(h, c)
   \/ Refused("psd")
   \/ \E w \in {"psd", "asd"}, g \in Grids : Eval(w, g)
   \/ \E x \in {"grid", "result"} : Tamper(x)
   \/ \E d \in 1..2 : Read(d) \/ (\E w \in 0..1 : Data(d, w))
   \/ \E c \in Curves : Own(c))
Pick(S) == RandomElement(S)
SimNext == Len(hist) < K /\
  \E c \in {Pick(1..16)}, g \in {Pick(Grids)}, d \in {Pick(1..2)}, k \in {Pick(Curves)} :
    IF c <= 3 THEN Set(Pick(How), k) ELSE IF c = 4 THEN Refused(Pick({"psd", "asd"}))
    ELSE IF c <= 8 THEN Eval(Pick({"psd", "asd"}), g) ELSE IF c <= 10 THEN Tamper(Pick({"grid", "result"}))
    ELSE IF c <= 13 THEN Read(d) ELSE IF c <= 15 THEN Data(d, Pick(0..2)) ELSE Own(k)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
SharedSame == \A i, j \in 1..Len(hist) : i < j /\ hist[i].op = "psd" /\ hist[j].op = "psd" /\ (\A k \in i..j : hist[k].op # "set") => hist[i].out = hist[j].out
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
