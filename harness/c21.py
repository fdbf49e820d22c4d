"""C21: signals checkpoint a run and release its resources."""
import random
import vlib
from vlib import THOROUGH
from c02 import run_jobs

N, STEPS = 6, 8
INV = ["Released", "OwnOutside", "ExitInRun", "KilledOutside", "PoolInRun", "Written", "NotIgnored"]
EXACT = ("emcee",)
ENSEMBLE = ("emcee", "zeus", "kombine")
CODES = dict(term=-15, alrm=-14, int=7)


def place(e, start, sampler, rng):
    """Where a planned event happens in the real run."""
    e = dict(e)
    fresh = 2 * N if start == 0 else N
    if e["op"] == "sig" and e["phase"] == "sample" and e["at"] == STEPS and sampler in EXACT:
        e.update(line=1 + rng.randrange(4), calls=fresh + (STEPS - start) * N)
    elif e["op"] == "raise" or e.get("to") == "worker" or e["phase"] in ("initial", "sample"):
        if e["phase"] == "initial":
            e["call"] = 1 + rng.randrange(N)
        elif sampler in EXACT:
            e["call"] = fresh + (e["at"] - start) * N + 1 + rng.randrange(N)
        elif e["op"] == "sig" and e["to"] != "worker" and rng.random() < 0.5:
            e["line"] = int(10 ** rng.uniform(1, 3.7))
        else:
            e["call"] = 2 * N + int(10 ** rng.uniform(0, 2.3))
    elif e["phase"] == "build":
        if rng.random() < 0.5 and e["np"] > 1:
            e.update(forks=1 + rng.randrange(2), line=1 + rng.randrange(20))
        else:
            e["line"] = 1 + rng.randrange(40)
    else:
        e["line"] = 1 + rng.randrange(30)
        if sampler in EXACT:
            e["calls"] = fresh + (STEPS - start) * N
        else:
            e["line"] = int(10 ** rng.uniform(2, 4))
    return e


def plan(b, sampler, seed):
    """Lives with the events of a behaviour."""
    rng = random.Random(seed)
    out = []
    for h in b["hist"]:
        if h["op"] == "life":
            out.append(dict(user=h["user"], events=[], end=None))
        elif h["op"] == "end":
            out[-1]["end"] = h
        elif h["op"] == "run":
            run = dict(h, queue=[], over="")
            out[-1]["events"].append(run)
        elif h["op"] == "finish":
            run["over"] = "finish"
        elif h["op"] == "sig" and h["phase"] == "out":
            out[-1]["events"].append(h)
        else:
            run["queue"].append(place(dict(h, np=run["np"]), run["from"], sampler, rng))
            run["over"] = "raise" if h["op"] == "raise" else run["over"]
    return dict(lives=out, sampler=sampler, seed=seed)


def registered():
    """A signal while a call is registered with the pool; its tasks are never handed out and closing the pool waits for them."""
    ev = dict(op="sig", s="term", to="main", phase="sample", at=1, again=0, np=2, registered=1)
    end = dict(op="end", how="exit", own=dict(term=0, int=0, alrm=0), file=0, sig="term")
    lv = dict(user=dict(term="default", int="default", alrm="default"), end=end, events=[{"op": "run", "np": 2, "nr": 1, "from": 0, "queue": [ev], "over": ""}])
    return dict(lives=[lv], sampler="dynesty", seed=vlib.SEED, timeout=20, key="signal-while-registered")


def judged(p, reports):
    r = judge(p, reports)
    return (r, p["key"]) if r and p.get("key") and reports[0]["code"] is None else r


def judge(p, reports):
    sampler = p["sampler"]
    for k, (lv, r) in enumerate(zip(p["lives"], reports)):
        what = "%s, life %d" % (sampler, k + 1)
        runs = [e for e in lv["events"] if e["op"] == "run"]
        # what has been sent within the runs which ended in this process
        for i, e in enumerate(runs):
            if i >= len(r["runs"]):
                if e["over"] == "" and lv["end"]["how"] == "exit":
                    break
                return "%s: run %d (%s) did not end as expected; exit code %s %s" % (what, i, e["queue"], r["code"], r["err"])
            rep = r["runs"][i]
            if not all(rep["back"].values()):
                return "%s: after run %d (%s) the signals have not their previous meaning: %s" % (what, i, e["queue"], rep["back"])
            if rep["workers"]:
                return "%s: %d workers are alive after run %d" % (what, rep["workers"], i)
            if rep["raised"]:
                if e["over"] != "raise":
                    return "%s: run %d failed" % (what, i)
                continue
            need = sum(not x.get("again") for x in e["queue"])
            if rep["sent"] < need:
                if sampler in EXACT and not all(x["op"] == "sig" and x["to"] == "worker" for x in e["queue"][rep["sent"]:]):
                    return "%s: run %d ended before %s with %d evaluations" % (what, i, e["queue"], rep["calls"])
                if e["over"] != "finish":
                    return None  # ended before the event
            elif e["over"] != "finish":
                return "%s: run %d went on and was completed after %s" % (what, i, e["queue"])
            if rep["np"] > 1 and rep["calls"] and sampler != "nestle" and rep["forks"] != rep["np"]:
                return "%s: %d processes were started for a pool of %d" % (what, rep["forks"], rep["np"])
            if rep["np"] == 1 and (rep["forks"] or rep["worker"]):
                return "%s: processes were started without a pool" % what
            if rep["np"] > 1 and sampler != "nestle" and rep["calls"] > 6 * N and not rep["worker"]:
                return "%s: the workers of the pool were not used" % what
            if sampler in ENSEMBLE and rep["steps"] != (16 if sampler == "kombine" else STEPS):
                return "%s: run %d has %s steps" % (what, i, rep["steps"])
            if sampler in EXACT and rep["calls"] != (2 * N if e["from"] == 0 else N) + (STEPS - e["from"]) * N:
                return "%s: run %d which continues with %d of %d steps evaluates the likelihood %d times" % (what, i, e["from"], STEPS, rep["calls"])
        if r["own"] != lv["end"]["own"]:
            return "%s: the process's own handlers were called %s instead of %s" % (what, r["own"], lv["end"]["own"])
        expected = dict(exit=33, done=0, killed=CODES.get(lv["end"]["sig"]))[lv["end"]["how"]]
        if r["code"] != expected:
            return "%s: after %s the exit code is %s instead of %s: %s" % (
                what, [e for e in lv["events"] if e["op"] == "sig"] + [x for e in runs for x in e["queue"]], r["code"], expected, r["err"])
        if r["alive"]:
            return "%s: %d workers outlive the run after %s" % (what, r["alive"], [x for e in runs for x in e["queue"]])
    return None


def run(chk):
    c = dict(Steps=2, Runs=1, Lives=2, Signals=2, Rule="pid", Log=False)
    chk.tlc("model", "SignalRun", constants=c, invariants=INV, properties=["Kept", "OwnMeaning", "Acted"])
    bad = chk.tlc("acting only with a pool", "SignalRun", constants=dict(c, Rule="pool", Lives=1, Signals=1), invariants=INV, allow_violation=True)
    if not bad.violation:
        raise vlib.MachineryError("the model accepts ignoring signals before the pool is built")
    r = chk.tlc("plans", "SignalRun", spec="SimSpec", constants=dict(Steps=STEPS, Runs=2, Lives=3, Signals=3, Rule="pid", Log=True),
                invariants=INV + ["Emit"], simulate=1500 if THOROUGH else 100, depth=70)
    plans = []
    for i, b in enumerate(r.emitted):
        s = ("emcee", "emcee", "ptemcee", "dynesty", "emcee", "zeus", "emcee", "kombine", "nestle", "bilby_mcmc")[i % 10]
        if s == "bilby_mcmc" and i % 20 > 10 and not THOROUGH:
            s = "emcee"
        plans.append(plan(b, s, vlib.SEED * 100000 + i))
    if not THOROUGH:
        # runs of these with pools take long to complete
        plans = [p for p in plans if p["sampler"] not in ("ptemcee", "bilby_mcmc") or not any(e["op"] == "run" and e["np"] > 1 and e["over"] == "finish" for lv in p["lives"] for e in lv["events"])]
    plans.append(registered())
    per = max(1, len(plans) // (7 * (8 if THOROUGH else 2)))
    jobs = [dict(plans=plans[i::per and max(1, len(plans) // per)]) for i in range(max(1, len(plans) // per))]
    outs = run_jobs(chk, "c21_driver.py", jobs, "lives", n_par=8, timeout=1500)
    todo = [(p, o) for j, out in zip(jobs, outs) for p, o in zip(j["plans"], out)]
    chk.replay_all("lives", todo, lambda x: judged(*x))
