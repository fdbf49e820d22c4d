------------------------------- MODULE PTMCMC -------------------------------
(* Bilby-MCMC: one BilbyPTMCMCSampler with NT temperatures and NE walkers per temperature.

   A point is a number; its log likelihood and log prior are functions of it (LogL, LogP), some of them
   infinite or not a number.  Each round of step_all_chains makes L1 internal Metropolis-Hastings steps
   per chain, then, when due, one sequence of ensemble moves and one sequence of temperature swaps.
   Proposed points are new numbers, so duplicated, lost and mixed-up states are recognised.

   All probabilities are compared in logarithms scaled by 64: log u = lu/64 with lu odd, betas are
   multiples of 1/8 and log likelihoods, priors and factors are integers, so ties do not occur. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT, NE, PTE,      \* temperatures, walkers, walkers at every temperature?
          Beta8,            \* betas times 8, coldest first
          L1, L2,           \* internal steps; rounds between swaps and ensemble moves
          K,                \* rounds
          SeedSet,          \* choices per round
          Ratio             \* likelihood ratio used (noise evidence must cancel)

VARIABLES pts,    \* pts[t][e]: sequence of points
          cnt,    \* cnt[t][e]: accepted, rejected, swaps accepted, swaps rejected
          nxt,    \* next new point
          dueT, dueE,  \* rounds since the last swap / ensemble move
          round, hist
vars == <<pts, cnt, nxt, dueT, dueE, round, hist>>

Bad == 1000000
Rem(x, m) == x - m * (x \div m)
\* -1 stands for minus infinity, -2 for not a number, -3 for plus infinity
SpecL(n) == IF Rem(n, 11) = 5 THEN -1 ELSE IF Rem(n, 17) = 7 THEN -2 ELSE IF Rem(n, 23) = 11 /\ NE = 1 THEN -3 ELSE 0
SpecP(n) == IF Rem(n, 7) = 3 THEN -1 ELSE 0
LogL(n) == Rem(n * 37, 13) - 6
LogP(n) == Rem(n * 29, 5) - 5
Valid(n) == SpecL(n) = 0 /\ SpecP(n) = 0

H(s, t, e, i, j) == Rem((s + 1) * 7919 + (t + 1) * 104 + (e + 1) * 1299 + i * 611 + j * 3571 + (s + 3) * (i + 2 * t + 3 * e + 5) * (j + 7), 1009)
LUs == <<-1, -17, -49, -113, -201, -401, -1001>>
Lu(h) == LUs[Rem(h, 7) + 1]
Lf(h) == Rem(h, 7) - 3

Temps == 0..(NT - 1)
Walkers(t) == IF t = 0 \/ PTE THEN 0..(NE - 1) ELSE 0..0
Last(sq) == sq[Len(sq)]
MHAccept(t, lf, lu, old, new) ==
   Valid(new) /\ lu <= 64 * lf + 8 * Beta8[t + 1] * (LogL(new) - LogL(old)) + 64 * (LogP(new) - LogP(old))

\* --- one chain: L1 internal steps, then the point reached is stored
RECURSIVE Internal(_, _, _, _, _, _)
Internal(s, t, e, i, cur, acc) ==
   IF i > L1 THEN [cur |-> cur, steps |-> acc]
   ELSE LET n == nxt + acc.base + i - 1
            lf == Lf(H(s, t, e, i, 1))
            lu == Lu(H(s, t, e, i, 2))
            ok == MHAccept(t, lf, lu, cur, n) IN
        Internal(s, t, e, i + 1, IF ok THEN n ELSE cur,
                 [acc EXCEPT !.list = Append(acc.list, [from |-> cur, to |-> n, lf |-> lf, lu |-> lu, p |-> Rem(H(s, t, e, i, 3), 2), ok |-> ok])])

Order == LET RECURSIVE Rows(_) Rows(t) == IF t = NT THEN <<>> ELSE [i \in 1..Cardinality(Walkers(t)) |-> <<t, i - 1>>] \o Rows(t + 1) IN Rows(0)
NC == Len(Order)
StepOf(s, c) == LET t == Order[c][1] e == Order[c][2] IN
   Internal(s, t, e, 1, Last(pts[t][e]), [base |-> (c - 1) * L1, list |-> <<>>])
CountOk(l) == Cardinality({i \in 1..Len(l) : l[i].ok})
IdxOf(t, e) == CHOOSE c \in 1..NC : Order[c] = <<t, e>>

AfterStep(s) == [t \in Temps |-> [e \in Walkers(t) |-> Append(pts[t][e], StepOf(s, IdxOf(t, e)).cur)]]
CntStep(s) == [t \in Temps |-> [e \in Walkers(t) |->
     LET l == StepOf(s, IdxOf(t, e)).steps.list IN [cnt[t][e] EXCEPT !.a = @ + CountOk(l), !.r = @ + L1 - CountOk(l)]]]

\* --- ensemble moves: every walker in turn, at the temperatures with several walkers
EnsOrder == SelectSeq(Order, LAMBDA x : Cardinality(Walkers(x[1])) > 1)
RECURSIVE Ens(_, _, _, _, _)
Ens(s, i, p, c, l) ==
   IF i > Len(EnsOrder) THEN [p |-> p, c |-> c, l |-> l]
   ELSE LET t == EnsOrder[i][1] e == EnsOrder[i][2]
            cur == Last(p[t][e])
            n == nxt + NC * L1 + i - 1
            lf == Lf(H(s, t, e, 9, 4))
            lu == Lu(H(s, t, e, 9, 5))
            ok == MHAccept(t, lf, lu, cur, n) IN
        Ens(s, i + 1, [p EXCEPT ![t][e] = Append(@, IF ok THEN n ELSE cur)],
            [c EXCEPT ![t][e].a = @ + (IF ok THEN 1 ELSE 0), ![t][e].r = @ + (IF ok THEN 0 ELSE 1)],
            Append(l, [from |-> cur, to |-> n, lf |-> lf, lu |-> lu, ok |-> ok,
                       others |-> {Last(p[t][x]) : x \in Walkers(t) \ {e}}]))

\* --- temperature swaps: neighbouring temperatures from the coldest on, per walker
SwapOrder == LET E == IF PTE THEN NE ELSE 1 IN [i \in 1..(E * (NT - 1)) |-> <<Rem(i - 1, NT - 1), (i - 1) \div (NT - 1)>>]
SetLast(sq, v) == [sq EXCEPT ![Len(sq)] = v]
RECURSIVE Swaps(_, _, _, _, _)
Swaps(lu, i, p, c, l) ==
   IF i > Len(SwapOrder) THEN [p |-> p, c |-> c, l |-> l]
   ELSE LET t == SwapOrder[i][1] e == SwapOrder[i][2]
            x == Last(p[t][e]) y == Last(p[t + 1][e])
            ok == lu <= 8 * (Beta8[t + 2] - Beta8[t + 1]) * (LogL(x) - LogL(y)) IN
        Swaps(lu, i + 1,
              IF ok THEN [p EXCEPT ![t][e] = SetLast(@, y), ![t + 1][e] = SetLast(@, x)] ELSE p,
              [c EXCEPT ![t][e].sa = @ + (IF ok THEN 1 ELSE 0), ![t][e].sr = @ + (IF ok THEN 0 ELSE 1)],
              Append(l, ok))

Round(s) ==
  LET p1 == AfterStep(s)
      c1 == CntStep(s)
      doE == NE > 1 /\ dueE >= L2
      en == IF doE THEN Ens(s, 1, p1, c1, <<>>) ELSE [p |-> p1, c |-> c1, l |-> <<>>]
      doT == NT > 1 /\ dueT >= L2
      lu == Lu(H(s, 1, 2, 3, 6))
      sw == IF doT THEN Swaps(lu, 1, en.p, en.c, <<>>) ELSE [p |-> en.p, c |-> en.c, l |-> <<>>] IN
  /\ pts' = sw.p /\ cnt' = sw.c
  /\ dueE' = (IF doE THEN 0 ELSE dueE) + 1
  /\ dueT' = (IF doT THEN 0 ELSE dueT) + 1
  /\ nxt' = nxt + NC * L1 + (IF doE THEN Len(EnsOrder) ELSE 0)
  /\ round' = round + 1
  /\ hist' = Append(hist, [steps |-> [c \in 1..NC |-> StepOf(s, c).steps.list], ens |-> en.l, swap |-> doT, lu |-> lu, sw |-> sw.l,
                           pts |-> [c \in 1..NC |-> sw.p[Order[c][1]][Order[c][2]]],
                           cnt |-> [c \in 1..NC |-> sw.c[Order[c][1]][Order[c][2]]]])

RECURSIVE NthValid(_, _)
NthValid(k, n) == IF Valid(n) THEN (IF k = 1 THEN n ELSE NthValid(k - 1, n + 1)) ELSE NthValid(k, n + 1)
Start(c) == NthValid(c, 1)
Init == /\ pts = [t \in Temps |-> [e \in Walkers(t) |-> <<Start(IdxOf(t, e))>>]]
        /\ cnt = [t \in Temps |-> [e \in Walkers(t) |-> [a |-> 0, r |-> 0, sa |-> 0, sr |-> 0]]]
        /\ nxt = 200 /\ dueT = 0 /\ dueE = (L2 \div 2) + 1 /\ round = 0 /\ hist = <<>>
Next == round < K /\ \E s \in SeedSet : Round(s)
SimNext == round < K /\ \E s \in {RandomElement(0..100000)} : Round(s)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

\* ---- design ----
AllC == {<<t, e>> : t \in Temps, e \in 0..(NE - 1)}
Real == {x \in AllC : x[2] \in Walkers(x[1])}
StartValid == \A c \in 1..NC : Valid(Start(c))
OnlyValid == \A x \in Real : Valid(Last(pts[x[1]][x[2]]))
Current == [x \in Real |-> Last(pts[x[1]][x[2]])]
NoDuplicate == \A x, y \in Real : x # y => Current[x] # Current[y]
Ladder == Beta8[1] = 8 /\ \A i \in 1..(NT - 1) : Beta8[i] > Beta8[i + 1]
Counts == \A x \in Real : cnt[x[1]][x[2]].a + cnt[x[1]][x[2]].r >= L1 * round
\* swaps exchange: the set of current states changes only by the states replaced in a move
SwapConserves == \A i \in 1..Len(hist) : hist[i].swap =>
    LET fin == {hist[i].pts[c][Len(hist[i].pts[c])] : c \in 1..NC} IN Cardinality(fin) = NC
Emit == round = K => PrintT("@@E " \o ToJson([NT |-> NT, NE |-> NE, PTE |-> PTE, Beta8 |-> Beta8, L1 |-> L1, L2 |-> L2, ratio |-> Ratio, order |-> Order,
                                              start |-> [c \in 1..NC |-> Start(c)], hist |-> hist]))
=============================================================================
