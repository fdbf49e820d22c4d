----------------------------- MODULE SignalRun -----------------------------
(* Signals which arrive before, during and after the runs of a process.

   A process has a disposition of its own for every signal.  A run installs its
   handlers, builds a pool of workers, draws initial points, samples and
   releases everything.  A signal within a run makes it write what it has, close
   the pool and exit with the configured code; a signal outside of one has the
   meaning it had before; a worker does nothing with signals.  The following
   process (a life) continues with what was written.

   Rule says how a process recognises that it is the one to act: "pid" (it is the
   process which started the run) or "pool" (it has a pool or needs none), which
   is blind before the pool is built and after it is closed.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Steps, Runs, Lives, Signals, Rule,
          Log      \* whether the history is recorded
VARIABLES phase, user, hand, np, pool, iter, file, own, end, life, nrun, nsig, depth, hit, hist
vars == <<phase, user, hand, np, pool, iter, file, own, end, life, nrun, nsig, depth, hit, hist>>

Add(x) == hist' = IF Log THEN Append(hist, x) ELSE hist

Sig == {"term", "int", "alrm"}
Disp == {"default", "ignore", "own"}
InRun == phase \in {"build", "initial", "sample", "tail"}
None == [s \in Sig |-> 0]

Fresh(u) == /\ phase = "out" /\ user = u /\ hand = [s \in Sig |-> "user"] /\ np = 1 /\ pool = 0 /\ iter = 0
            /\ own = None /\ end = "" /\ depth = 0
Init == /\ \E u \in [Sig -> Disp] : Fresh(u) /\ hist = <<[op |-> "life", user |-> u]>>
        /\ hit = FALSE /\ file = 0 /\ life = 1 /\ nrun = 1 /\ nsig = 0

Begin(n) == /\ phase = "out" /\ end = "" /\ nrun <= Runs
            /\ phase' = "build" /\ np' = n /\ hand' = [s \in Sig |-> "run"] /\ iter' = file
            /\ Add([op |-> "run", np |-> n, nr |-> nrun, from |-> file])
            /\ UNCHANGED <<hit, user, pool, file, own, end, life, nrun, nsig, depth>>
Build == /\ phase = "build" /\ depth = 0
         /\ phase' = "initial" /\ pool' = (IF np > 1 THEN np ELSE 0)
         /\ UNCHANGED <<hit, user, hand, np, iter, file, own, end, life, nrun, nsig, depth, hist>>
Initial == /\ phase = "initial" /\ depth = 0
           /\ phase' = "sample"
           /\ UNCHANGED <<hit, user, hand, np, pool, iter, file, own, end, life, nrun, nsig, depth, hist>>
Step == /\ phase = "sample" /\ depth = 0 /\ iter < Steps
        /\ iter' = iter + 1
        /\ UNCHANGED <<hit, phase, user, hand, np, pool, file, own, end, life, nrun, nsig, depth, hist>>
Close == /\ phase = "sample" /\ depth = 0 /\ iter = Steps
         /\ phase' = "tail" /\ pool' = 0 /\ file' = Steps
         /\ UNCHANGED <<hit, user, hand, np, iter, own, end, life, nrun, nsig, depth, hist>>
Leave == /\ phase = "tail" /\ depth = 0
         /\ phase' = "out" /\ hand' = [s \in Sig |-> "user"] /\ nrun' = nrun + 1 /\ file' = 0
         /\ Add([op |-> "finish", nr |-> nrun])
         /\ UNCHANGED <<hit, user, np, pool, iter, own, end, life, nsig, depth>>
(* the likelihood fails; what happens to the workers is left to the interpreter *)
Raise == /\ phase \in {"initial", "sample"} /\ depth = 0 /\ iter < Steps /\ nsig < Signals
         /\ phase' = "out" /\ hand' = [s \in Sig |-> "user"] /\ pool' = 0 /\ nsig' = nsig + 1
         /\ Add([op |-> "raise", phase |-> phase, at |-> iter])
         /\ UNCHANGED <<hit, user, np, iter, file, own, end, life, nrun, depth>>

Acts == Rule = "pid" \/ np = 1 \/ pool > 0
Rec(s, to) == [op |-> "sig", s |-> s, to |-> to, phase |-> phase, at |-> iter, again |-> depth]
Deliver(s, to) ==
    /\ end = "" /\ nsig < Signals /\ depth < 2
    /\ to = "worker" => pool > 0 /\ phase = "sample" /\ depth = 0 /\ iter < Steps
    /\ to = "group" => InRun
    /\ nsig' = nsig + 1
    /\ Add(Rec(s, to))
    /\ hit' = (hit \/ (to # "worker" /\ hand[s] = "run"))
    /\ IF to = "worker" THEN UNCHANGED <<phase, user, hand, np, pool, iter, file, own, end, life, nrun, depth>>
       ELSE IF hand[s] = "user"
            THEN /\ own' = (IF user[s] = "own" THEN [own EXCEPT ![s] = @ + 1] ELSE own)
                 /\ end' = (IF user[s] = "default" THEN "killed" ELSE end)
                 /\ UNCHANGED <<phase, user, hand, np, pool, iter, file, life, nrun, depth>>
            ELSE /\ depth' = (IF Acts THEN depth + 1 ELSE depth)
                 /\ UNCHANGED <<phase, user, hand, np, pool, iter, file, own, end, life, nrun>>
(* the innermost handler writes, closes the pool and ends the process *)
Handle == /\ depth > 0 /\ end = ""
          /\ file' = (IF iter > file THEN iter ELSE file) /\ pool' = 0 /\ end' = "exit"
          /\ UNCHANGED <<hit, phase, user, hand, np, iter, own, life, nrun, nsig, depth, hist>>
Stop == /\ end = "" /\ phase = "out" /\ nrun > Runs
        /\ end' = "done"
        /\ UNCHANGED <<hit, phase, user, hand, np, pool, iter, file, own, life, nrun, nsig, depth, hist>>
Outcome == [op |-> "end", how |-> end, own |-> own, file |-> file, sig |-> IF hist[Len(hist)].op = "sig" THEN hist[Len(hist)].s ELSE ""]
Next2(u) == /\ end \in {"exit", "killed", "done"} /\ life < Lives
            /\ end # "done"
            /\ phase' = "out" /\ user' = u /\ hand' = [s \in Sig |-> "user"] /\ np' = 1 /\ pool' = 0 /\ iter' = 0
            /\ own' = None /\ end' = "" /\ depth' = 0 /\ hit' = FALSE /\ life' = life + 1
            /\ hist' = (IF Log THEN hist \o <<Outcome, [op |-> "life", user |-> u]>> ELSE hist)
            /\ UNCHANGED <<file, nrun, nsig>>

Machine == \/ Build \/ Initial \/ Step \/ Close \/ Leave \/ Handle \/ Stop
Next == \/ Machine
        \/ \E n \in {1, 2} : Begin(n)
        \/ Raise
        \/ \E s \in Sig, to \in {"main", "group", "worker"} : Deliver(s, to)
        \/ \E u \in [Sig -> Disp] : Next2(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Machine) /\ WF_vars(\E n \in {1, 2} : Begin(n))

(* random behaviours; the sets depend on the state such that they are drawn from at every step *)
Draw(S) == RandomElement({x \in S : nsig >= 0})
SimInit == /\ \E u \in [Sig -> Disp] : Fresh(u) /\ hist = <<[op |-> "life", user |-> u]>>
           /\ hit = FALSE /\ file = 0 /\ life = 1 /\ nrun = 1 /\ nsig = 0
SimEvent == \E s \in {Draw(Sig)}, to \in {Draw({"main", "group", "worker"})} : Deliver(s, to)
SimBegin == \E n \in {Draw({1, 2})} : Begin(n)
SimNext ==
    \E c \in {Draw(1 .. 20)} :
        IF end \in {"exit", "killed"} THEN \E u \in {[s \in Sig |-> Draw(Disp)]} : Next2(u)
        ELSE IF depth > 0 THEN (IF c <= 6 /\ nsig < Signals /\ depth < 2 THEN (\E s \in {Draw(Sig)} : Deliver(s, "main")) ELSE Handle)
        ELSE IF c <= (IF phase = "sample" THEN 2 ELSE 5) /\ nsig < Signals
             THEN (\E s \in {Draw(Sig)}, to \in {Draw(IF phase = "out" THEN {"main"} ELSE IF phase = "sample" /\ pool > 0 /\ iter < Steps THEN {"main", "group", "worker"} ELSE {"main", "group"})} : Deliver(s, to))
        ELSE IF c = 6 /\ ENABLED Raise THEN Raise
        ELSE IF ENABLED Machine THEN Machine ELSE SimBegin
SimSpec == SimInit /\ [][SimNext]_vars

(* properties *)
Released == end \in {"exit", "done"} => pool = 0
OwnOutside == phase = "out" => \A s \in Sig : hand[s] = "user"
ExitInRun == end = "exit" => InRun
KilledOutside == end = "killed" => ~InRun
PoolInRun == pool > 0 => InRun
Written == end = "exit" /\ iter > 0 => file = iter
Kept == [][(file' < file) => phase = "tail"]_vars
OwnMeaning == [][\A s \in Sig : own'[s] > own[s] => ~InRun /\ user[s] = "own"]_vars
NotIgnored == hit => depth > 0 \/ end # ""
Acted == hit ~> (end = "exit")

Over == end = "done" \/ (end \in {"exit", "killed"} /\ life = Lives)
Emit == Over => PrintT("@@E " \o ToJson([hist |-> Append(hist, Outcome), steps |-> Steps]))
=============================================================================
