"""C03: a Bilby-MCMC run resumes from its last checkpoint."""
import vlib
from vlib import THOROUGH
from c02 import run_jobs

FIXED = [
    [("term_step", 3, "no"), ("term_first", 1, "no"), ("kill_ckpt", 2, "no"), ("none", 1, "no")],
    [("kill_ckpt", 3, "no"), ("none", 1, "ntemps"), ("none", 1, "Tmax"), ("term_time", 2, "array")],
    [("term_line", 4, "no"), ("term_line", 5, "no"), ("none", 1, "no"), ("none", 1, "thin")],
]


def run(chk):
    inv = ["Kept", "KeptOnDisk", "Once", "Counters", "Fresh"]
    cons = dict(N=2, MaxSteps=4 if THOROUGH else 3, Lives=3 if THOROUGH else 2, SwapOnResume=False)
    chk.tlc("model", "McmcResume", constants=cons, invariants=inv, properties=["Refused"])
    bad = chk.tlc("repeating an exchange on resuming", "McmcResume", constants=dict(cons, SwapOnResume=True), invariants=inv, allow_violation=True)
    if not bad.violation:
        raise vlib.MachineryError("the model accepts an exchange repeated when resuming")
    if THOROUGH:
        FIXED.append([("probe_lines", 1, "no"), ("term_step", 9, "no"), ("probe_lines", 1, "no")])
    r = chk.tlc("plans", "McmcPlans", spec="SimSpec", constants=dict(K=4), invariants=["Sane", "Emit"], simulate=120 if THOROUGH else 18, depth=6)
    plans = [[dict(resume=True, damage="no", change=c, fault=f, pos=p) for f, p, c in x] for x in FIXED] + [b["plan"] for b in r.emitted]
    jobs = [dict(plan=p, seed=vlib.SEED * 1000 + i, npool=2 if i % 7 == 6 else 1, nsamples=15 + 5 * (i % 3), ntemps=[2, 3, 2, 2][i % 4], nensemble=[1, 1, 1, 2, 1][i % 5],
                 ptens=i % 2 == 1, adapt=i % 3 != 1, betas=i % 4 == 1 or (i + 1) % 6 == 0) for i, p in enumerate(plans)]
    outs = run_jobs(chk, "c03_driver.py", jobs, "lives")
    chk.validate("lives", "McmcTrace", outs, invariants=["Report"], keyfn=lambda t, bad: None)
