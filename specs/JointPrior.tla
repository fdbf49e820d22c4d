---------------------------- MODULE JointPrior ----------------------------
(* Parameters sharing a joint distribution are requested one by one; the distribution answers from
   complete requests only.

   Abstract joint distribution over Names (a sequence):
     - the n-th draw of size s has in row i (from 0) the value 1000 n + 10 i + index of the parameter
     - unit-cube coordinates in quarters are mapped to  1000 idx + idx * q_idx + (sum of all q)
     - ln density  -(weighted sum of the values), -infinity outside 0..Bound in any component        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names, Sizes, Coords, Values, Bound, Kinds, K
\* Values: set of sequences (rows) of integers; a sequence of length 0 is not used; length 1 stands for a scalar

N == Len(Names)
VARIABLES draws,      \* number of joint draws made
          taken,      \* names that already received their value of the current draw
          size,       \* size of the current draw
          req, res,   \* partial requests: [subset of 1..N -> value]
          hist
vars == <<draws, taken, size, req, res, hist>>

Idx == 1..N
Empty == [i \in {} |-> 0]
Init == draws = 0 /\ taken = {} /\ size = 0 /\ req = Empty /\ res = Empty /\ hist = <<>>

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Put(f, i, v) == [x \in (DOMAIN f) \cup {i} |-> IF x = i THEN v ELSE f[x]]
Rec(o) == hist' = Append(hist, o)

\* sizes: 0 stands for size=None / 1 (scalar)
Rows(s) == IF s = 0 THEN 1 ELSE s
Sample(i, s) ==
  /\ taken # {} => s = size
  /\ LET new == taken = {}
         n == IF new THEN draws + 1 ELSE draws
         t == taken \cup {i} IN
     /\ draws' = n /\ size' = s
     /\ taken' = (IF t = Idx THEN {} ELSE t)
     /\ Rec([op |-> "sample", i |-> i, size |-> s, out |-> [r \in 1..Rows(s) |-> 1000 * n + 10 * (r - 1) + i]])
  /\ UNCHANGED <<req, res>>

JointRescale(f) == LET tot == SumTo(f, N) IN [i \in Idx |-> 1000 * i + i * f[i] + tot]
Rescale(i, q) ==
  LET f == Put(res, i, q) full == DOMAIN f = Idx IN
  /\ res' = (IF full THEN Empty ELSE f)
  /\ Rec([op |-> "rescale", i |-> i, q |-> q, full |-> full, out |-> IF full THEN JointRescale(f) ELSE <<>>])
  /\ UNCHANGED <<draws, taken, size, req>>

\* minus the log density of row r, or -1 for minus infinity
JointLn(f, r) == IF \A i \in Idx : f[i][r] >= 0 /\ f[i][r] <= Bound
                 THEN SumTo([i \in Idx |-> (2 * i + 1) * f[i][r]], N) + f[1][r] * f[N][r] ELSE -1
Evaluate(kind, i, v) ==
  LET f == Put(req, i, v) full == DOMAIN f = Idx
      agree == \A j \in DOMAIN f : Len(f[j]) = Len(v) IN
  /\ req' = (IF full THEN Empty ELSE f)
  /\ Rec([op |-> kind, i |-> i, v |-> v, full |-> full, error |-> full /\ ~agree,
          out |-> IF full /\ agree THEN [r \in 1..Len(v) |-> JointLn(f, r)] ELSE <<>>])
  /\ UNCHANGED <<draws, taken, size, res>>

Acts == {<<"sample", i, s>> : i \in Idx, s \in IF taken = {} THEN Sizes ELSE {size}}
        \cup {<<"rescale", i, q>> : i \in Idx, q \in Coords}
        \cup {<<k, i, v>> : k \in {"prob", "ln_prob"}, i \in Idx, v \in Values}
Do(a) == CASE a[1] = "sample" -> Sample(a[2], a[3])
           [] a[1] = "rescale" -> Rescale(a[2], a[3])
           [] OTHER -> Evaluate(a[1], a[2], a[3])
Ok(a) == a[1] \in Kinds
Next == Len(hist) < K /\ \E a \in Acts : Ok(a) /\ Do(a)
\* simulation: pick the kind first, and prefer parameters not yet requested
SimNext == /\ Len(hist) < K
           /\ \E a \in {RandomElement({x \in Acts : Ok(x) /\ x[1] = RandomElement(Kinds)} \cup
                                      {x \in Acts : Ok(x) /\ x[2] \notin (IF x[1] = "rescale" THEN DOMAIN res
                                                        ELSE IF x[1] = "sample" THEN taken ELSE DOMAIN req)})} : Do(a)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

\* ---- design-level properties ----
NeverComplete == DOMAIN req # Idx /\ DOMAIN res # Idx /\ taken # Idx
\* all values of one draw number come from parameters that were each answered, and between two draws
\* with different numbers all parameters of the former were answered
DrawNumber(h) == h.out[1] \div 1000
WholeDraws == \A a, b \in 1..Len(hist) :
    (hist[a].op = "sample" /\ hist[b].op = "sample" /\ DrawNumber(hist[a]) < DrawNumber(hist[b])) =>
       /\ a < b
       /\ \A i \in Idx : \E c \in 1..(b - 1) : hist[c].op = "sample" /\ hist[c].i = i /\ DrawNumber(hist[c]) = DrawNumber(hist[a])
\* exactly one complete answer per N distinct parameters
Emit == Len(hist) = K => PrintT("@@E " \o ToJson(hist))
=============================================================================
