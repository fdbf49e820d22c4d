---------------------------- MODULE GridMarginal ----------------------------
(* A posterior on a grid: values of every grid point, integrals over any of the axes by the trapezoidal rule (exact
   integers: every integrated axis contributes twice its weight), the names which belong to the axes left, and saving
   and reading the grid. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Grids,   \* records: names (sequence), pts (sequence of increasing sequences), like (sequence: coefficients, offset, mode)
          Kinds, K
VARIABLES g, left, arr, kind, hist
vars == <<g, left, arr, kind, hist>>
Width == 12   \* every prior is uniform from 0 to Width
Dims == Len(g.names)
RECURSIVE Tuples(_, _)
Tuples(p, k) == IF k = 0 THEN {<<>>} ELSE {Append(t, i) : t \in Tuples(p, k - 1), i \in 1..Len(p[k])}
\* the likelihood at a point: distinct values in every direction, or with zeroes
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Lin(_, _, _)
Lin(gr, x, k) == IF k = 0 THEN 0 ELSE gr.coef[k] * x[k] + Lin(gr, x, k - 1)
Like(gr, x) == LET v == gr.off + Lin(gr, x, Len(x)) + (IF Len(x) >= 2 THEN x[1] * x[2] ELSE 0)
               IN IF gr.zero /\ (v \div 3) * 3 = v THEN 0 ELSE Abs(v)
Inside(gr, x) == IF \A k \in 1..Len(x) : x[k] >= 0 /\ x[k] <= Width THEN 1 ELSE 0
At(gr, t) == [k \in 1..Len(t) |-> gr.pts[k][t[k]]]
Full(gr, kd) == [t \in Tuples(gr.pts, Len(gr.names)) |->
   IF kd = "like" THEN Like(gr, At(gr, t)) ELSE IF kd = "post" THEN Like(gr, At(gr, t)) * Inside(gr, At(gr, t)) ELSE Inside(gr, At(gr, t))]
\* twice the trapezoidal weights; a single point is not integrated
Wt(p, i) == IF Len(p) = 1 THEN 1 ELSE IF i = 1 THEN p[2] - p[1] ELSE IF i = Len(p) THEN p[i] - p[i - 1] ELSE p[i + 1] - p[i - 1]
Scale(p) == IF Len(p) = 1 THEN 1 ELSE 2
Drop(t, k) == [i \in 1..(Len(t) - 1) |-> IF i < k THEN t[i] ELSE t[i + 1]]
Ins(t, k, v) == [i \in 1..(Len(t) + 1) |-> IF i < k THEN t[i] ELSE IF i = k THEN v ELSE t[i - 1]]
RECURSIVE SumUp(_, _)
SumUp(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumUp(f, n - 1)
PtsOf(nm) == g.pts[CHOOSE k \in 1..Dims : g.names[k] = nm]
Pos(nm) == CHOOSE k \in 1..Len(left) : left[k] = nm
Integrate(a, k, p) == [t \in {Drop(u, k) : u \in DOMAIN a} |-> SumUp([i \in 1..Len(p) |-> Wt(p, i) * a[Ins(t, k, i)]], Len(p))]
\* together, from the definition: the sum over all points with the given indices of the product of the weights
RECURSIVE Prod(_, _, _)
Prod(t, L, k) == IF k = 0 THEN 1 ELSE (IF g.names[k] \in L THEN 1 ELSE Wt(g.pts[k], t[k])) * Prod(t, L, k - 1)
RECURSIVE SumSet(_, _, _)
SumSet(S, a, L) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Prod(t, L, Dims) * a[t] + SumSet(S \ {t}, a, L)
Together(L) ==
  LET a == Full(g, kind)
      keep == SelectSeq(g.names, LAMBDA n : n \in L)
      Key(t) == [i \in 1..Len(keep) |-> t[CHOOSE k \in 1..Dims : g.names[k] = keep[i]]]
  IN [u \in {Key(t) : t \in DOMAIN a} |-> SumSet({t \in DOMAIN a : Key(t) = u}, a, L)]
Flat(a) == {<<t, a[t]>> : t \in DOMAIN a}
RECURSIVE ScaleOf(_, _)
ScaleOf(L, k) == IF k = 0 THEN 1 ELSE (IF g.names[k] \in L THEN 1 ELSE Scale(g.pts[k])) * ScaleOf(L, k - 1)
Names(s) == {s[i] : i \in 1..Len(s)}
Snap(op, x) == hist' = Append(hist, [op |-> op, x |-> x, left |-> left', kind |-> kind', arr |-> Flat(arr'),
                                     scale |-> ScaleOf(Names(left'), Dims), g |-> g'])
Marg(nm) == nm \in Names(left) /\ arr' = Integrate(arr, Pos(nm), PtsOf(nm)) /\ left' = SelectSeq(left, LAMBDA n : n # nm)
            /\ UNCHANGED <<g, kind>> /\ Snap("marg", nm)
Again(kd) == kind' = kd /\ arr' = Full(g, kd) /\ left' = g.names /\ UNCHANGED g /\ Snap("full", kd)
\* written and read again, without or with compression
Store(x) == UNCHANGED <<g, kind, arr, left>> /\ Snap("store", x)
Init == /\ g \in Grids /\ kind \in Kinds /\ arr = Full(g, kind) /\ left = g.names
        /\ hist = <<[op |-> "init", x |-> "", left |-> left, kind |-> kind, arr |-> Flat(arr), scale |-> 1, g |-> g]>>
Next == Len(hist) < K /\ (\/ \E nm \in Names(left) : Marg(nm)
                          \/ \E kd \in Kinds : Again(kd) /\ left # g.names
                          \/ \E x \in {"json", "gz", "label", "labelgz"} : Store(x) /\ hist[Len(hist)].op # "store")
Pick(S) == RandomElement(S)
SimNext == Len(hist) < K /\ \E c \in {Pick(1..6)} :
   IF c <= 4 THEN IF left = <<>> THEN Again(Pick(Kinds)) ELSE Marg(Pick(Names(left)))
   ELSE IF c = 5 THEN Again(Pick(Kinds)) ELSE Store(Pick({"json", "gz", "label", "labelgz"}))
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
\* marginalising one after another in any order is marginalising together
Order == arr = Together(Names(left))
\* the axes left are those of the names left, in the order of the parameters
Axes == \A t \in DOMAIN arr : Len(t) = Len(left) /\ \A k \in 1..Len(t) : t[k] <= Len(PtsOf(left[k]))
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
