--------------------------- MODULE LikelihoodEval ---------------------------
(* Several likelihoods over the same detectors and the same waveform generator, each with its own settings. The value
   for given parameters depends on the likelihood, the parameters and the current waveform arguments; evaluating,
   reconstructing marginalized parameters or asking for signal-to-noise ratios leaves no trace. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Likes, Points, Modes, K
VARIABLES mode, par, hist  \* par[l]: the point last given to likelihood l (0 none)
vars == <<mode, par, hist>>
Step(op, l, p) == hist' = Append(hist, [op |-> op, l |-> l, p |-> p, mode |-> mode'])
Give(op, l, p) == par' = [par EXCEPT ![l] = p] /\ UNCHANGED mode /\ Step(op, l, p)
\* without new parameters: the value for the ones it has
Same(op, l) == par[l] > 0 /\ UNCHANGED <<mode, par>> /\ Step(op, l, par[l])
Mode(m) == mode' = m /\ UNCHANGED par /\ Step("mode", 0, m)
Noise(l) == UNCHANGED <<mode, par>> /\ Step("noise", l, 0)
Init == mode = 0 /\ par = [l \in Likes |-> 0] /\ hist = <<>>
Asked == {"ratio", "full", "reconstruct", "detectors", "snrs"}
Next == Len(hist) < K /\
  (\/ \E l \in Likes, p \in Points : Give("ratio", l, p)
   \/ \E l \in Likes, op \in Asked : Same(op, l)
   \/ \E m \in Modes : Mode(m))
Pick(S) == RandomElement(S)
SimNext == Len(hist) < K /\
  \E c \in {Pick(1..20)}, l \in {Pick(Likes)}, p \in {Pick(Points)}, op \in {Pick(Asked)} :
    IF c <= 10 THEN Give(op, l, p)
    ELSE IF c <= 17 THEN (IF par[l] > 0 THEN Same(op, l) ELSE Give(op, l, p))
    ELSE IF c = 18 THEN Noise(l) ELSE Mode(Pick(Modes))
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
Current == \A i \in 1..Len(hist) : hist[i].op \in Asked => hist[i].p \in Points
Emit == Len(hist) = K => PrintT("@@E " \o ToJson([hist |-> hist]))
=============================================================================
