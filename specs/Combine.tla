------------------------------- MODULE Combine -------------------------------
(* Combining a list of results: what is refused, the evidence and the number of samples taken from each. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Full
VARIABLES rs, level, shuffle, hist, ph
vars == <<rs, level, shuffle, hist, ph>>
\* ev, err: the evidence is ln(ev), the error is ln(err)/2, err = 0: not known; noise: which data (0: not known)
Kinds == {"nested", "nested_lost", "bilby_mcmc", "emcee"}
Results == [kind : Kinds, par : {"xy", "x"}, pri : {"a", "b", "more", "less"}, noise : {0, 1, 2}, ev : {1, 2, 4}, err : {0, 1, 3}, n : {1, 3}]
Base == [kind |-> "nested", par |-> "xy", pri |-> "a", noise |-> 1, ev |-> 2, err |-> 1, n |-> 3]
Small == {r \in Results : Cardinality({f \in {"par", "pri", "noise"} : r[f] # Base[f]}) <= 1}
Name(r) == IF r.kind = "nested_lost" THEN "nested" ELSE r.kind
S(f) == {f[i] : i \in 1..Len(f)}
All(p) == \A i \in 2..Len(rs) : p[i] = p[1]
Differ == {q \in {"sampler", "data", "parameters", "priors"} :
             \E i \in 1..Len(rs) :
               \/ q = "sampler" /\ Name(rs[i]) # Name(rs[1])
               \/ q = "data" /\ rs[i].noise # rs[1].noise
               \/ q = "parameters" /\ rs[i].par # rs[1].par
               \/ q = "priors" /\ (rs[i].pri # rs[1].pri)}
AnyNested == \E i \in 1..Len(rs) : rs[i].kind = "nested"
AllNested == \A i \in 1..Len(rs) : rs[i].kind = "nested"
Refused == Len(rs) > 1 /\ ((level = "error" /\ Differ # {}) \/ (AnyNested /\ ~AllNested))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Evs == [i \in 1..Len(rs) |-> rs[i].ev]
Errs == [i \in 1..Len(rs) |-> rs[i].err]   \* unknown errors are left out of the sum
Max == CHOOSE m \in S(Evs) : \A y \in S(Evs) : y <= m
How == IF Len(rs) = 0 THEN "empty" ELSE IF Len(rs) = 1 THEN "copy" ELSE IF AnyNested THEN "nested" ELSE IF rs[1].kind = "bilby_mcmc" THEN "mcmc" ELSE "join"
Out == [refused |-> Refused, how |-> How,
        \* evidence num/den, error^2 in the same way, fraction kept of each result keep/max
        num |-> Sum(Evs), den |-> Len(rs), enum |-> Sum(Errs), keep |-> Evs, max |-> IF rs = <<>> THEN 1 ELSE Max]
Init == rs = <<>> /\ level = "error" /\ shuffle = FALSE /\ hist = <<>> /\ ph = "make"
Add == ph = "make" /\ Len(rs) < MaxLen /\ \E r \in (IF Full THEN Results ELSE Small) : rs' = Append(rs, r) /\ UNCHANGED <<level, shuffle, hist, ph>>
Do == /\ ph = "make" /\ ph' = "done" /\ level' \in {"error", "warning"} /\ shuffle' \in BOOLEAN
      /\ UNCHANGED rs /\ hist' = <<>>
Fin == ph = "done" /\ hist = <<>> /\ hist' = <<Out>> /\ UNCHANGED <<rs, level, shuffle, ph>>
Spec == Init /\ [][Add \/ Do \/ Fin]_vars
\* random lists, alike in most attributes
Pick(A) == RandomElement(A)
Alike(r, b, d) == [r EXCEPT !.par = IF d = 1 THEN @ ELSE b.par, !.pri = IF d = 2 THEN @ ELSE b.pri, !.noise = IF d = 3 THEN @ ELSE b.noise, !.kind = IF d = 4 THEN @ ELSE b.kind]
SimAdd == /\ ph = "make" /\ \E len \in {Pick(0..MaxLen)}, b \in {Pick(Results)}, d \in {Pick(1..9)}, e \in {Pick(1..4)} :
               rs' = [i \in 1..len |-> IF i = 1 THEN b ELSE Alike(Pick(Results), b, IF i = e THEN d ELSE 9)]
          /\ ph' = "go" /\ UNCHANGED <<level, shuffle, hist>>
SimDo == ph = "go" /\ ph' = "done" /\ level' = Pick({"error", "error", "warning", "ignore"}) /\ shuffle' = Pick(BOOLEAN) /\ UNCHANGED <<rs, hist>>
SimSpec == Init /\ [][SimAdd \/ SimDo \/ Fin]_vars
\* the combined evidence lies between the smallest and the largest, and the best result is kept whole
Between == (ph = "done" /\ Len(rs) > 0) => Sum(Evs) <= Max * Len(rs) /\ \A i \in 1..Len(rs) : rs[i].ev <= Max
SameForAnyOrder == (ph = "done" /\ Len(rs) = 2) => (Refused <=> (level = "error" /\ Differ # {}) \/ (AnyNested /\ ~AllNested))
Emit == (ph = "done" /\ hist # <<>>) => PrintT("@@E " \o ToJson([rs |-> rs, level |-> level, shuffle |-> shuffle, out |-> hist[1]]))
=============================================================================
