----------------------------- MODULE Distribution -----------------------------
(* A one-dimensional distribution whose defining values change.               *)
(*                                                                            *)
(* A prior has a class and a value for each of its attributes.  Assigning an  *)
(* attribute gives the distribution with that value, whatever the history:    *)
(* nothing else is state.  What the distribution is follows from the values   *)
(* alone: the uniform distribution pulled back by an increasing function G on *)
(* [lo, hi] (the image of the numbers is the cumulative probability),         *)
(* possibly mirrored at zero, with a point mass, or made of atoms.            *)
(* Values are integers in units which depend on the class.  Where G is        *)
(* polynomial the probabilities are rational and computed here.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Classes, MaxOps, Values     \* Values: class -> attribute -> set of integers

VARIABLES cls, val, hist
vars == <<cls, val, hist>>

Attrs(c) == DOMAIN Values[c]
Has(a) == a \in DOMAIN val

\* the values an object may have together
Fits(c, v) ==
    /\ ("lo" \in DOMAIN v => v.lo < v.hi)
    /\ ("mode" \in DOMAIN v => v.lo <= v.mode /\ v.mode <= v.hi)
    /\ ("loc" \in DOMAIN v => v.lo <= v.loc /\ v.loc <= v.hi)
    /\ (c = "powerlaw" /\ v.alpha <= -2 => v.lo > 0)      \* in halves
    /\ (c = "linear" => v.slope * v.lo + v.level > 0 /\ v.slope * v.hi + v.level > 0)

\* the function whose image is uniform, its arguments, and the bounds
G(c, v) ==
    CASE c \in {"uniform", "slabuniform"} -> [g |-> "identity", args |-> <<>>]
      [] c \in {"powerlaw", "slabpower"} -> [g |-> IF v.alpha = -2 THEN "log" ELSE "power", args |-> <<v.alpha>>]
      [] c \in {"loguniform", "symlog"} -> [g |-> "log", args |-> <<>>]
      [] c = "chirpmass" -> [g |-> "power", args |-> <<2>>]
      [] c = "massratio" -> [g |-> "massratio", args |-> <<>>]
      [] c \in {"sine", "slabsine"} -> [g |-> "-cos", args |-> <<>>]
      [] c = "cosine" -> [g |-> "sin", args |-> <<>>]
      [] c = "gaussian" -> [g |-> "normal", args |-> <<v.mu, v.sigma>>]
      [] c \in {"truncated", "slabtruncated"} -> [g |-> "normal", args |-> <<v.mu, v.sigma>>]
      [] c = "half" -> [g |-> "normal", args |-> <<0, v.sigma>>]
      [] c = "lognormal" -> [g |-> "lognormal", args |-> <<v.mu, v.sigma>>]
      [] c = "exponential" -> [g |-> "gamma", args |-> <<"one", v.mu>>]
      [] c = "studentt" -> [g |-> "studentt", args |-> <<v.df, v.mu, v.scale>>]
      [] c = "beta" -> [g |-> "beta", args |-> <<v.alpha, v.beta, v.lo, v.hi>>]
      [] c = "logistic" -> [g |-> "logistic", args |-> <<v.mu, v.scale>>]
      [] c = "cauchy" -> [g |-> "cauchy", args |-> <<v.alpha, v.beta>>]
      [] c = "gamma" -> [g |-> "gamma", args |-> <<v.k, v.theta>>]
      [] c = "chisquared" -> [g |-> "gamma", args |-> <<"half", v.nu>>]
      [] c = "fermi" -> [g |-> "fermi", args |-> <<v.sigma, v.r>>]
      [] c = "triangular" -> [g |-> "triangular", args |-> <<v.mode, v.lo, v.hi>>]
      [] c \in {"linear", "slablinear"} -> [g |-> "linear", args |-> <<v.slope, v.level>>]
      [] c = "fresh" -> [g |-> "fresh", args |-> <<v.kind>>]
      [] c = "delta" -> [g |-> "point", args |-> <<v.peak>>]
      [] c = "categorical" -> [g |-> "atoms", args |-> <<v.n>>]
Bounds(c, v) ==
    CASE "lo" \in DOMAIN v -> <<v.lo, v.hi>>
      [] c \in {"half", "lognormal", "exponential", "gamma", "chisquared", "fermi"} -> <<0, "inf">>
      [] c = "delta" -> <<v.peak, v.peak>>
      [] c = "categorical" -> <<0, v.n - 1>>
      [] OTHER -> <<"-inf", "inf">>
Form(c, v) == [g |-> G(c, v).g, args |-> G(c, v).args, lo |-> Bounds(c, v)[1], hi |-> Bounds(c, v)[2],
               mirrored |-> c = "symlog",
               loc |-> IF "loc" \in DOMAIN v THEN v.loc ELSE 0,
               height |-> IF "height" \in DOMAIN v THEN v.height ELSE 0]     \* in quarters

(******************************************************************************)
(* rational probabilities: numerator and denominator                          *)
(******************************************************************************)
Exact == {"uniform", "slabuniform", "triangular", "linear", "chirpmass", "categorical"}
Grid == -2..14
Clip(x, v) == IF x < v.lo THEN v.lo ELSE IF x > v.hi THEN v.hi ELSE x
\* twice the integral of the density up to x, unnormalised, at integers
Area(c, v, x) ==
    CASE c \in {"uniform", "slabuniform"} -> x - v.lo
      [] c = "chirpmass" -> x * x - v.lo * v.lo
      [] c = "linear" -> v.slope * (x * x - v.lo * v.lo) + 2 * v.level * (x - v.lo)
      [] c = "triangular" ->
           IF x <= v.mode THEN (x - v.lo) * (x - v.lo) * (v.hi - v.mode)
           ELSE (v.mode - v.lo) * (v.hi - v.mode) * (v.hi - v.lo) - (v.hi - x) * (v.hi - x) * (v.mode - v.lo)
\* a triangle with its mode at a bound
Triangle(v, x) == IF v.mode = v.lo THEN (v.hi - v.lo) * (v.hi - v.lo) - (v.hi - x) * (v.hi - x)
                  ELSE IF v.mode = v.hi THEN (x - v.lo) * (x - v.lo)
                  ELSE Area("triangular", v, x)
Slab(c, v, x) == IF c = "triangular" THEN <<Triangle(v, Clip(x, v)), Triangle(v, v.hi)>>
                 ELSE <<Area(c, v, Clip(x, v)), Area(c, v, v.hi)>>
\* in units of 1/(4 * denominator): the spike counts above its location
Cdf(c, v, x) ==
    IF c = "categorical" THEN <<IF x < 0 THEN 0 ELSE IF x >= v.n THEN v.n ELSE x + 1, v.n>>
    ELSE IF c = "slabuniform"
         THEN <<(4 - v.height) * Slab(c, v, x)[1] + (IF x > v.loc THEN v.height * Slab(c, v, x)[2] ELSE 0),
                4 * Slab(c, v, x)[2]>>
         ELSE Slab(c, v, x)
\* the density, with the normalisation of Cdf
Density(c, v, x) ==
    IF c = "categorical" THEN <<IF x \in 0..(v.n - 1) THEN 1 ELSE 0, v.n>>
    ELSE IF x < v.lo \/ x > v.hi THEN <<0, 1>>
    ELSE CASE c = "uniform" -> <<1, v.hi - v.lo>>
           [] c = "slabuniform" -> <<4 - v.height, 4 * (v.hi - v.lo)>>
           [] c = "chirpmass" -> <<2 * x, v.hi * v.hi - v.lo * v.lo>>
           [] c = "linear" -> <<2 * (v.slope * x + v.level), Area(c, v, v.hi)>>
           [] c = "triangular" -> IF x < v.mode \/ (x = v.mode /\ v.mode = v.hi)
                                  THEN <<2 * (x - v.lo), (v.mode - v.lo) * (v.hi - v.lo)>>
                                  ELSE <<2 * (v.hi - x), (v.hi - v.mode) * (v.hi - v.lo)>>
Table(c, v) == IF c \in Exact THEN [x \in 1..Cardinality(Grid) |->
                                      <<x - 3, Cdf(c, v, x - 3), Density(c, v, x - 3)>>]
               ELSE <<>>

(******************************************************************************)
\* a table is given for the range there is
May(a) == cls = "linear" /\ a \in {"slope", "level"} => val.lo = 0 /\ val.hi = 12
Shots == {"scalar", "vector", "matrix", "empty", "integers", "sample"}
Log(op, a, x) == hist' = Append(hist, [op |-> op, attr |-> a, x |-> x, cls |-> cls, val |-> val',
                                       form |-> Form(cls, val'), table |-> Table(cls, val')])
Init == /\ cls \in Classes
        /\ val \in [Attrs(cls) -> UNION {Values[cls][a] : a \in Attrs(cls)}]
        /\ \A a \in Attrs(cls) : val[a] \in Values[cls][a]
        /\ Fits(cls, val)
        /\ hist = <<>>
Make == hist = <<>> /\ UNCHANGED <<cls, val>> /\ Log("make", "", 0)
Set == /\ hist # <<>> /\ Len(hist) < MaxOps
       /\ \E a \in Attrs(cls) \ {"kind"} : \E x \in Values[cls][a] :
            /\ x # val[a] /\ May(a) /\ val' = [val EXCEPT ![a] = x] /\ Fits(cls, val')
            /\ UNCHANGED cls /\ Log("set", a, x)
Next == Make \/ Set
Spec == Init /\ [][Next]_vars

SimInit == /\ cls \in Classes /\ val = <<>> /\ hist = <<>>
SimMake == /\ hist = <<>>
           /\ \E v \in {[a \in Attrs(cls) |-> RandomElement(Values[cls][a])]} :
                Fits(cls, v) /\ val' = v /\ UNCHANGED cls /\ Log("make", "", 0)
SimSet == /\ hist # <<>> /\ Len(hist) < MaxOps
          /\ \E a \in {RandomElement(Attrs(cls))} : \E x \in {RandomElement(Values[cls][a])} :
             \E ask \in {RandomElement(1..3)}, shot \in {RandomElement(Shots)} :
               IF ask > 1 /\ a # "kind" /\ May(a) /\ Fits(cls, [val EXCEPT ![a] = x])
               THEN val' = [val EXCEPT ![a] = x] /\ UNCHANGED cls /\ Log("set", a, x)
               ELSE val' = val /\ UNCHANGED cls /\ Log("ask", shot, 0)
SimSpec == SimInit /\ [][SimMake \/ SimSet]_vars

(******************************************************************************)
Made == hist # <<>> /\ cls \in Exact
LE(p, q) == p[1] * q[2] <= q[1] * p[2]
Ends == Made => /\ Cdf(cls, val, -2)[1] = 0
                /\ Cdf(cls, val, 14)[1] = Cdf(cls, val, 14)[2]
Monotone == Made => \A x \in -2..13 : LE(Cdf(cls, val, x), Cdf(cls, val, x + 1))
NonNegative == Made => \A x \in Grid : Density(cls, val, x)[1] >= 0 /\ Density(cls, val, x)[2] > 0
\* between neighbours the density is linear: its mean is the difference of the probabilities
Integrates == Made /\ cls # "categorical" => \A x \in -2..13 :
    (x >= val.lo /\ x + 1 <= val.hi /\ ~("loc" \in DOMAIN val /\ x <= val.loc /\ val.loc <= x + 1)
       /\ ~(cls = "triangular" /\ x + 1 = val.mode /\ val.mode # val.hi)) =>
      LET a == Cdf(cls, val, x)
          b == Cdf(cls, val, x + 1)
          f == Density(cls, val, x)
          h == Density(cls, val, x + 1)
      IN  2 * (b[1] - a[1]) * f[2] * h[2] = (f[1] * h[2] + h[1] * f[2]) * a[2]
\* only the values matter
Forgetful == \A m, n \in 1..Len(hist) : hist[m].val = hist[n].val =>
                hist[m].form = hist[n].form /\ hist[m].table = hist[n].table
Emit == Len(hist) = MaxOps => PrintT("@@E " \o ToJson(hist))
=============================================================================
