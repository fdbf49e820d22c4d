------------------------------- MODULE Chain -------------------------------
(* The stored chain of bilby_mcmc: appends, replacements and reads in any order.

   A point is a number n; its parameter values, prior and likelihood are functions of n (LogL below), so
   a point that is mixed up with another one is recognised.  The autocorrelation time is fixed (T), as
   the option fixed_tau allows; what remains is everything the chain decides from it: which burn-in
   index applies, when cached values may be used, thinning, sample count, and growing of the storage. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS T,        \* autocorrelation time
          Burn,     \* burn_in_nact
          Thin2,    \* twice thin_by_nact
          FD,       \* fixed_discard
          C,        \* autocorr_c
          Block,    \* storage block length (only for the implementation)
          K, Ops

VARIABLES pts,      \* the points
          cur,      \* point the chain continues from
          maxL,     \* largest log likelihood ever stored
          last,     \* cached burn-in index: <<position, value>>
          taus,     \* sequence of <<position, tau>> as calculated; tau = Inf when not measurable
          cached,   \* number of times the last tau was reused
          prop, adapt,  \* lower bounds of the burn-in index set from outside
          next,     \* number of the next new point
          hist
vars == <<pts, cur, maxL, last, taus, cached, prop, adapt, next, hist>>

Inf == -1
Pseudo(x) == x - 101 * (x \div 101)
LogL(n) == Pseudo(n * 37) - 50
Pos == Len(pts) - 1
Max2(a, b) == IF a > b THEN a ELSE b
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
TauLast == IF taus = <<>> THEN Inf ELSE taus[Len(taus)][2]
Floor(a, b) == a \div b

FullTau == IF Pos < 2 * C THEN Inf ELSE T
\* the burn-in index that applies now, and the cache afterwards
MinIdx ==
  IF last[1] = Pos THEN [v |-> last[2], c |-> last]
  ELSE IF Pos < FD THEN [v |-> FD, c |-> last]
  ELSE LET t == IF TauLast # Inf THEN TauLast ELSE IF taus = <<>> THEN FullTau ELSE Inf
           m == MaxS({FD, prop, adapt} \cup (IF t # Inf THEN {Burn * t} ELSE {})) IN
       [v |-> m, c |-> <<Pos, m>>]
NSamplesLast(mi) == IF TauLast = Inf THEN 0 ELSE
                    LET x == 2 * (Pos - mi) d == Thin2 * TauLast IN IF x >= 0 THEN x \div d ELSE -((-x) \div d)
TauAt == {i \in 1..Len(taus) : taus[i][1] = Pos}
\* value of tau now and what is remembered
Tau == LET mi == MinIdx.v IN
   IF TauAt # {} THEN [v |-> taus[CHOOSE i \in TauAt : TRUE][2], ts |-> taus, n |-> cached, l |-> last]
   ELSE IF TauLast # Inf /\ cached < 50 /\ NSamplesLast(mi) > 50 THEN [v |-> TauLast, ts |-> taus, n |-> cached + 1, l |-> MinIdx.c]
   ELSE LET t == IF Pos - mi < 2 * C THEN Inf ELSE T IN [v |-> t, ts |-> Append(taus, <<Pos, t>>), n |-> 0, l |-> MinIdx.c]
ThinOf(t) == IF t = Inf THEN 1 ELSE Max2(1, (Thin2 * t) \div 2)
NSamples(mi, t) ==
  LET use == Pos - mi
      n == IF t = Inf THEN 0 ELSE IF use >= 0 THEN (2 * use) \div (T * Thin2) ELSE -((2 * (-use)) \div (T * Thin2)) IN
  IF use >= n THEN n ELSE 0
\* rows mi, mi + thin, ... below the position
Rows(mi, th) == LET n == IF Pos > mi THEN (Pos - mi + th - 1) \div th ELSE 0 IN [i \in 1..n |-> pts[mi + (i - 1) * th + 1]]

Obs == [pts |-> pts', cur |-> cur', maxL |-> maxL', pos |-> Len(pts') - 1]
Rec(op, a, r) == hist' = Append(hist, [op |-> op, arg |-> a, res |-> r, obs |-> Obs])
Keep == UNCHANGED <<last, taus, cached, prop, adapt>>

Init == /\ pts = <<1>> /\ cur = 1 /\ maxL = LogL(1) /\ last = <<0, 0>> /\ taus = <<>> /\ cached = 0
        /\ prop = 0 /\ adapt = 0 /\ next = 2 /\ hist = <<>>

AppendMany(m) == /\ pts' = pts \o [i \in 1..m |-> next + i - 1]
                 /\ cur' = next + m - 1 /\ next' = next + m
                 /\ maxL' = Max2(maxL, MaxS({LogL(next + i - 1) : i \in 1..m}))
                 /\ Keep /\ Rec("append", m, 0)
\* repeat the current point (a rejected step)
Repeat == /\ pts' = Append(pts, cur) /\ UNCHANGED <<cur, next>> /\ maxL' = Max2(maxL, LogL(cur)) /\ Keep /\ Rec("repeat", 0, 0)
\* replace by a new point; i counts from the end if negative
Replace(i) ==
  LET j == IF i < 0 THEN i + Pos + 1 ELSE i
      ok == j >= 0 /\ j <= Pos IN
  /\ pts' = (IF ok THEN [pts EXCEPT ![j + 1] = next] ELSE pts)
  /\ cur' = (IF ok /\ j = Pos THEN next ELSE cur)
  /\ next' = next + 1
  /\ maxL' = (IF ok THEN Max2(maxL, LogL(next)) ELSE maxL)
  /\ Keep /\ Rec("replace", i, IF ok THEN 1 ELSE 0)
Get(i) == LET j == IF i < 0 THEN i + Pos + 1 ELSE i
              ok == j >= 0 /\ j <= Pos IN
          /\ UNCHANGED <<pts, cur, maxL, next>> /\ Keep
          /\ Rec("get", i, IF ok THEN pts[j + 1] ELSE -1)
ReadMin == /\ last' = MinIdx.c /\ UNCHANGED <<pts, cur, maxL, taus, cached, prop, adapt, next>> /\ Rec("minimum_index", 0, MinIdx.v)
ReadTau == /\ last' = Tau.l /\ taus' = Tau.ts /\ cached' = Tau.n
           /\ UNCHANGED <<pts, cur, maxL, prop, adapt, next>> /\ Rec("tau", 0, Tau.v)
ReadThin == /\ last' = Tau.l /\ taus' = Tau.ts /\ cached' = Tau.n
           /\ UNCHANGED <<pts, cur, maxL, prop, adapt, next>> /\ Rec("thin", 0, ThinOf(Tau.v))
\* nsamples reads the burn-in index, then tau
ReadN == /\ last' = MinIdx.c
         /\ taus' = Tau.ts /\ cached' = Tau.n
         /\ UNCHANGED <<pts, cur, maxL, prop, adapt, next>> /\ Rec("nsamples", 0, NSamples(MinIdx.v, Tau.v))
ReadSamples == /\ last' = MinIdx.c /\ taus' = Tau.ts /\ cached' = Tau.n
               /\ UNCHANGED <<pts, cur, maxL, prop, adapt, next>>
               /\ Rec("samples", 0, Rows(MinIdx.v, ThinOf(Tau.v)))
SetProp(v) == prop' = Max2(prop, v) /\ UNCHANGED <<pts, cur, maxL, last, taus, cached, adapt, next>> /\ Rec("set_proposal", v, 0)
SetAdapt(v) == adapt' = Max2(adapt, v) /\ UNCHANGED <<pts, cur, maxL, last, taus, cached, prop, next>> /\ Rec("set_adapt", v, 0)

Acts == {a \in ({<<"append", m>> : m \in {1, 2, 5, 9}} \cup {<<"repeat", 0>>}
         \cup {<<"replace", i>> : i \in {-1, 0, Pos, Pos + 1, -Pos - 2, Pos \div 2}}
         \cup {<<"get", i>> : i \in {-1, 0, Pos, Pos + 1, -Pos - 1, -Pos - 2, Pos \div 2}}
         \cup {<<o, 0>> : o \in {"minimum_index", "tau", "thin", "nsamples", "samples"}}
         \cup {<<o, v>> : o \in {"set_proposal", "set_adapt"}, v \in {Pos \div 2, 3}}) : a[1] \in Ops}
Do(a) == CASE a[1] = "append" -> AppendMany(a[2]) [] a[1] = "repeat" -> Repeat [] a[1] = "replace" -> Replace(a[2])
           [] a[1] = "get" -> Get(a[2]) [] a[1] = "minimum_index" -> ReadMin [] a[1] = "tau" -> ReadTau
           [] a[1] = "thin" -> ReadThin [] a[1] = "nsamples" -> ReadN [] a[1] = "samples" -> ReadSamples
           [] a[1] = "set_proposal" -> SetProp(a[2]) [] a[1] = "set_adapt" -> SetAdapt(a[2])
Next == Len(hist) < K /\ \E a \in Acts : Do(a)
\* short chains: the rule based on a window of 100 points is checked separately
SimNext == Len(hist) < K /\ Len(pts) < 85 /\ \E a \in {RandomElement(Acts)} : Do(a)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

\* ---- design ----
CurrentIsLast == cur = pts[Len(pts)]
MaxIsMax == \A i \in 1..Len(pts) : maxL >= LogL(pts[i])
Grows == \A i \in 1..Len(hist) : i > 1 => Len(hist[i].obs.pts) >= Len(hist[i - 1].obs.pts)
SampleRows == \A i \in 1..Len(hist) : hist[i].op = "samples" =>
     \A n \in 1..Len(hist[i].res) : \E j \in 1..Len(hist[i].obs.pts) : hist[i].obs.pts[j] = hist[i].res[n]
Emit == (Len(hist) = K \/ Len(pts) >= 85) => PrintT("@@E " \o ToJson([cfg |-> <<T, Burn, Thin2, FD, C, Block>>, hist |-> hist]))
=============================================================================
