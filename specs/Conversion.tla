----------------------------- MODULE Conversion -----------------------------
(* Which source parameters follow from the given ones (a closure of rules), the steps a conversion takes in the order
   it takes them, and the redundancy count of a prior. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part                  \* "mass", "spin", "tides", "all": the sets which are enumerated
VARIABLES given, known, pc, hist
vars == <<given, known, pc, hist>>

Det == {"mass_1", "mass_2", "total_mass", "chirp_mass"}
Src == {"mass_1_source", "mass_2_source", "total_mass_source", "chirp_mass_source"}
Ratio == {"mass_ratio", "symmetric_mass_ratio"}
Dist == {"luminosity_distance", "redshift", "comoving_distance"}
Spin == {"a_1", "tilt_1", "cos_tilt_1", "chi_1", "chi_1_in_plane"}
Angle == {"theta_jn", "cos_theta_jn", "psi", "phase", "delta_phase", "phi_12", "phi_jl"}
Tide == {"lambda_1", "lambda_2", "lambda_tilde", "delta_lambda_tilde", "lambda_symmetric", "lambda_antisymmetric", "binary_love_uniform"}

\* what follows from what (exactly)
MassRules(m1, m2, mt, mc) ==
    {<<{m1, m2}, mt>>, <<{m1, m2}, mc>>, <<{m1, m2}, "mass_ratio">>, <<{m1, mt}, m2>>, <<{m2, mt}, m1>>,
     <<{m1, "mass_ratio"}, m2>>, <<{m2, "mass_ratio"}, m1>>, <<{mt, "mass_ratio"}, m1>>, <<{mc, "mass_ratio"}, mt>>,
     <<{m1, mc}, "mass_ratio">>, <<{m2, mc}, "mass_ratio">>, <<{mt, mc}, "symmetric_mass_ratio">>}
FrameRules == UNION {{<<{d \o "_source", "redshift"}, d>>, <<{d, "redshift"}, d \o "_source">>} : d \in Det}
Rules == MassRules("mass_1", "mass_2", "total_mass", "chirp_mass")
    \cup MassRules("mass_1_source", "mass_2_source", "total_mass_source", "chirp_mass_source") \cup FrameRules
    \cup {<<{"mass_ratio"}, "symmetric_mass_ratio">>, <<{"symmetric_mass_ratio"}, "mass_ratio">>}
    \cup {<<{d}, e>> : d \in Dist, e \in Dist}
    \cup {<<{"chi_1", "chi_1_in_plane"}, "a_1">>, <<{"chi_1", "a_1"}, "cos_tilt_1">>, <<{"cos_tilt_1"}, "tilt_1">>, <<{"tilt_1"}, "cos_tilt_1">>}
    \cup {<<{"cos_theta_jn"}, "theta_jn">>, <<{"theta_jn"}, "cos_theta_jn">>, <<{"delta_phase", "psi", "theta_jn"}, "phase">>}
    \cup {<<{"lambda_tilde", "delta_lambda_tilde", "mass_1", "mass_2"}, l>> : l \in {"lambda_1", "lambda_2"}}
    \cup {<<{"lambda_symmetric", "lambda_antisymmetric"}, l>> : l \in {"lambda_1", "lambda_2"}}
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup {r[2] : r \in {q \in Rules : q[1] \subseteq S}} IN IF T = S THEN S ELSE Closure(T)

\* documented assumptions, used when nothing else is given
Aligned(G) == "chi_1" \in G /\ "a_1" \notin G /\ "chi_1_in_plane" \notin G
SameMatter(G) == \/ ("lambda_1" \in G /\ "lambda_2" \notin G) \/ ("lambda_tilde" \in G /\ "delta_lambda_tilde" \notin G)
Love(G) == "lambda_symmetric" \in G /\ "lambda_antisymmetric" \notin G
NoTides(G) == G \cap (Tide \ {"binary_love_uniform"}) = {}
Assume(G) == (IF Aligned(G) THEN {"a_1", "cos_tilt_1"} ELSE {}) \cup {"phi_jl", "phi_12"}
    \cup (IF NoTides(G) THEN {"lambda_1", "lambda_2"} ELSE {})
Tidal2(G) == IF {"mass_1", "mass_2"} \subseteq Closure(G) /\ (SameMatter(G) \/ Love(G)) THEN {"lambda_1", "lambda_2"} ELSE {}
Determined(G) == LET A == G \cup Assume(G) IN Closure(A \cup Tidal2(A))

\* sets which say something twice in different ways are not given
Consistent(G) ==
    /\ (G \cap Src # {} => G \cap Dist # {})
    /\ (Aligned(G) => G \cap {"tilt_1", "cos_tilt_1"} = {})
    /\ ("delta_phase" \in G => {"psi"} \subseteq G /\ G \cap {"theta_jn", "cos_theta_jn"} # {})
    /\ LET t == G \cap Tide IN
       t \in {{}, {"lambda_1"}, {"lambda_1", "lambda_2"}, {"lambda_tilde"}, {"lambda_tilde", "delta_lambda_tilde"}, {"lambda_symmetric", "lambda_antisymmetric"},
              {"lambda_symmetric", "binary_love_uniform"}, {"lambda_1", "lambda_2", "lambda_tilde"}, {"lambda_1", "lambda_2", "lambda_tilde", "delta_lambda_tilde"},
              {"lambda_1", "lambda_2", "lambda_symmetric", "lambda_antisymmetric"}}
    /\ (G \cap Tide # {} => {"mass_1", "mass_2"} \subseteq Closure(G))

\* parameters of the waveform
Wave == {"mass_1", "mass_2", "luminosity_distance", "a_1", "tilt_1", "phi_12", "phi_jl", "theta_jn", "phase", "psi", "lambda_1", "lambda_2"}

\* the conversion, step by step; each step only looks at what is there
FromRules(S, ks) == S \cup {k \in ks : \E r \in Rules : r[2] = k /\ r[1] \subseteq S}
StepDistance(S) == FromRules(S, {"luminosity_distance"})
StepFrame(S) == IF S \cap Src = {} THEN S ELSE FromRules(FromRules(S, {"redshift"}), {d \in Det : (d \o "_source") \in S})
Has(S, a, b) == a \in S /\ b \in S
\* one extra mass parameter at a time, until the component masses are there
StepMass(S) ==
    IF {"mass_1", "mass_2"} \subseteq S THEN S
    ELSE IF Has(S, "mass_1", "total_mass") THEN S \cup {"mass_2"}
    ELSE IF Has(S, "mass_2", "total_mass") THEN S \cup {"mass_1"}
    ELSE IF "mass_1" \in S \/ "mass_2" \in S
         THEN IF S \cap (Ratio \cup {"chirp_mass"}) # {} THEN S \cup {"mass_ratio", "mass_1", "mass_2"} ELSE S
    ELSE IF "total_mass" \in S
         THEN IF S \cap Ratio # {} THEN S \cup {"mass_ratio", "mass_1", "mass_2"}
              ELSE IF "chirp_mass" \in S THEN S \cup {"symmetric_mass_ratio", "mass_ratio", "mass_1", "mass_2"} ELSE S
    ELSE IF "chirp_mass" \in S /\ S \cap Ratio # {} THEN S \cup {"mass_ratio", "total_mass", "mass_1", "mass_2"}
    ELSE S
StepSpin(S) == IF Has(S, "chi_1", "chi_1_in_plane") \/ Aligned(S) THEN S \cup {"a_1", "cos_tilt_1"}
               ELSE IF Has(S, "chi_1", "a_1") THEN S \cup {"cos_tilt_1"} ELSE S
StepAngle(S) == LET T == FromRules(S \cup {"phi_12", "phi_jl"}, {"tilt_1", "theta_jn"}) IN FromRules(T, {"phase"} \cap (IF "delta_phase" \in S THEN {"phase"} ELSE {}))
StepTides(S) == IF NoTides(S) \/ SameMatter(S) \/ Love(S) \/ {"lambda_symmetric", "lambda_antisymmetric"} \subseteq S \/ "delta_lambda_tilde" \in S
                THEN S \cup {"lambda_1", "lambda_2"} ELSE S

Scenario(p) ==
    CASE p = "mass" -> {G \cup {"theta_jn", "phase", "psi"} : G \in {H \in SUBSET (Det \cup Src \cup Ratio \cup Dist) : Cardinality(H) <= 5}}
      [] p = "spin" -> {G \cup {"mass_1", "mass_2", "luminosity_distance"} : G \in SUBSET (Spin \cup (Angle \ {"phi_12"}))}
      [] p = "tides" -> {G \cup M \cup {"luminosity_distance", "theta_jn", "phase", "psi"} : G \in SUBSET Tide,
                         M \in {{"mass_1", "mass_2"}, {"chirp_mass", "mass_ratio"}, {"total_mass", "chirp_mass"}, {"mass_1_source", "mass_ratio"}, {"mass_2", "symmetric_mass_ratio"}}}
      [] OTHER -> {}
Init == /\ given \in {G \in Scenario(Part) : Consistent(G)} /\ known = given /\ pc = "distance" /\ hist = <<>>
Step(p, q, f) == pc = p /\ pc' = q /\ known' = f /\ hist' = Append(hist, [step |-> p, added |-> f \ known]) /\ UNCHANGED given
Next == \/ Step("distance", "frame", StepDistance(known)) \/ Step("frame", "mass", StepFrame(known)) \/ Step("mass", "spin", StepMass(known))
        \/ Step("spin", "angle", StepSpin(known)) \/ Step("angle", "tides", StepAngle(known)) \/ Step("tides", "done", StepTides(known))
Spec == Init /\ [][Next]_vars
\* random sets over all groups
Pick(S) == RandomElement(S)
SimInit == given = {} /\ known = {} /\ pc = "pick" /\ hist = <<>>
SimNext == \/ /\ pc = "pick"
              /\ \E a \in {Pick({G \in SUBSET (Det \cup Src) : Cardinality(G) <= 3})}, b \in {Pick(SUBSET Ratio)}, c \in {Pick(SUBSET Dist)}, d \in {Pick(SUBSET Spin)},
                    e \in {Pick(SUBSET Angle)}, t \in {Pick({{}, {"lambda_1"}, {"lambda_1", "lambda_2"}, {"lambda_tilde"}, {"lambda_tilde", "delta_lambda_tilde"},
                                                          {"lambda_symmetric", "lambda_antisymmetric"}, {"lambda_symmetric", "binary_love_uniform"}})} :
                   LET G == a \cup b \cup c \cup d \cup e \cup t IN
                   IF Consistent(G) THEN given' = G /\ known' = G /\ pc' = "distance" /\ hist' = <<>> ELSE UNCHANGED vars
           \/ pc # "pick" /\ Next
SimSpec == SimInit /\ [][SimNext]_vars

Sound == known \subseteq Determined(given)
Complete == pc = "done" => (Wave \cap Determined(given)) \subseteq known
Keeps == given \subseteq known
Monotone == Closure(given) = Closure(Closure(given)) /\ given \subseteq Closure(given)
\* the masses of one frame follow from the parameters of that frame and the ratios
Components(G, F, suffix) == {"mass_1" \o suffix, "mass_2" \o suffix} \subseteq Closure(G \cap (F \cup Ratio))
Emit == pc = "done" => PrintT("@@E " \o ToJson([given |-> given, known |-> known, all |-> Determined(given), aligned |-> Aligned(given), matter |-> SameMatter(given), love |-> Love(given),
                                                none |-> NoTides(given),
                                                own |-> [det |-> Components(given, Det, ""), src |-> Components(given, Src, "_source")]]))
=============================================================================
