--------------------------- MODULE PriorRedundancy ---------------------------
(* When adding a parameter to a prior says again what the prior already says. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bns, MaxPriors, Chosen     \* Chosen: names of the groups to enumerate
VARIABLES priors, n
vars == <<priors, n>>
Groups == [masses |-> {"mass_1", "mass_2", "chirp_mass", "total_mass", "mass_ratio", "symmetric_mass_ratio"},
           tilt1 |-> {"tilt_1", "cos_tilt_1"}, tilt2 |-> {"tilt_2", "cos_tilt_2"}, azimuth |-> {"phi_1", "phi_2", "phi_12", "phi_jl"},
           inclination |-> {"theta_jn", "cos_theta_jn"}, distance |-> {"luminosity_distance", "comoving_distance", "redshift"},
           tides |-> {"lambda_1", "lambda_2", "lambda_tilde", "delta_lambda_tilde"}, other |-> {"a_1", "psi", "chi_1"}]
\* how many of a group determine the others
Degrees == [masses |-> 2, tilt1 |-> 1, tilt2 |-> 1, azimuth |-> 2, inclination |-> 1, distance |-> 1, tides |-> IF Bns THEN 2 ELSE 99, other |-> 99]
All == UNION {Groups[g] : g \in Chosen}
Keys(p) == DOMAIN p
Sampled(p) == {k \in Keys(p) : p[k] = "sampled"}
GroupOf(k) == CHOOSE g \in DOMAIN Groups : k \in Groups[g]
Redundant(p, k) == k \in Keys(p) \/ Cardinality(Sampled(p) \cap Groups[GroupOf(k)]) >= Degrees[GroupOf(k)]
Without(p, k) == [x \in Keys(p) \ {k} |-> p[x]]
HasRedundant(p) == \E k \in Keys(p) : p[k] # "constraint" /\ Redundant(Without(p, k), k)
Init == priors = [x \in {} |-> "sampled"] /\ n = 0
Add(k, kind) == k \notin Keys(priors) /\ priors' = [x \in Keys(priors) \cup {k} |-> IF x = k THEN kind ELSE priors[x]]
Next == n < MaxPriors /\ n' = n + 1 /\ \E k \in All, kind \in {"sampled", "fixed", "constraint"} : Add(k, kind)
Spec == Init /\ [][Next]_vars
SimNext == n < MaxPriors /\ n' = n + 1 /\ \E k \in {RandomElement(All \ Keys(priors))}, q \in {RandomElement(1..6)} :
             Add(k, IF q <= 4 THEN "sampled" ELSE IF q = 5 THEN "fixed" ELSE "constraint")
SimSpec == Init /\ [][SimNext]_vars
\* an addition which is not redundant, to a prior without redundancy, makes none
Additive == [][\A k \in Keys(priors') \ Keys(priors) : (~HasRedundant(priors) /\ priors'[k] = "sampled" /\ HasRedundant(priors')) => (Redundant(priors, k) \/ \E x \in Keys(priors) : priors[x] = "fixed")]_vars
Ask == {CHOOSE k \in Groups[g] : TRUE : g \in Chosen} \cup Keys(priors)
Emit == PrintT("@@E " \o ToJson([priors |-> priors, redundant |-> [k \in UNION {Groups[g] : g \in Chosen} |-> Redundant(priors, k)], has |-> HasRedundant(priors), bns |-> Bns]))
=============================================================================
