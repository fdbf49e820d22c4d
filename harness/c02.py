"""C02: a nested-sampling run resumes from its last completed checkpoint."""
import json
import os
import shutil
import subprocess
import sys
import time
import vlib
from vlib import THOROUGH, newdir

HERE = os.path.dirname(os.path.abspath(__file__))


def run_jobs(chk, driver, jobs, part, n_par=7, timeout=300):
    """Run the driver on every job, n_par at a time; returns the outputs in order."""
    todo = list(enumerate(jobs))
    running, outs = [], [None] * len(jobs)
    while todo or running:
        while todo and len(running) < n_par:
            i, job = todo.pop(0)
            d = newdir("job_")
            job = dict(job, dir=d)
            json.dump(job, open(os.path.join(d, "job.json"), "w"))
            p = subprocess.Popen([sys.executable, os.path.join(HERE, driver), os.path.join(d, "job.json"), os.path.join(d, "out.json")],
                                 stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "w"), cwd=d, env=dict(os.environ, TQDM_DISABLE="1", **job.get("env", {})))
            running.append((i, p, d, time.time()))
        for r in list(running):
            i, p, d, t0 = r
            if p.poll() is None and time.time() - t0 < timeout:
                continue
            running.remove(r)
            if p.poll() is None:
                p.kill()
                raise vlib.MachineryError("driver timed out on %s" % jobs[i])
            f = os.path.join(d, "out.json")
            if not os.path.exists(f):
                raise vlib.MachineryError("driver failed on %s: %s" % (jobs[i], open(os.path.join(d, "err")).read()[-2500:]))
            outs[i] = json.load(open(f))
            shutil.rmtree(d, ignore_errors=True)
        time.sleep(0.02)
    return outs


FIXED = [
    # interrupted while the live points are being added, then resumed and interrupted again
    [("term_add", 2), ("int_add", 5), ("none", 1)],
    [("kill_iter", 9), ("term_iter", 3), ("none", 1)],
    [("none", 1), ("none", 1), ("none", 1)],
    [("kill_ckpt", 3), ("kill_add", 4), ("none", 1)],
    [("alrm_iter", 2), ("alrm_iter", 2), ("none", 1)],
]


def run(chk):
    inv = ["NoDup", "Ordered", "LiveAll", "TimeOnce", "ResultAll"]
    chk.tlc("model", "DynestyResume", constants=dict(L=2, MaxIter=3, Lives=3 if THOROUGH else 2, ById=True), invariants=inv, properties=["Unbroken"])
    bad = chk.tlc("removing a fixed number of points", "DynestyResume", constants=dict(L=2, MaxIter=3, Lives=2, ById=False), invariants=inv,
                  properties=["Unbroken"], allow_violation=True)
    if not bad.violation:
        raise vlib.MachineryError("the model accepts removing a fixed number of live points")
    r = chk.tlc("plans", "DynestyPlans", spec="SimSpec", constants=dict(K=4), invariants=["Sane", "Emit"], simulate=150 if THOROUGH else 16, depth=6)
    plans = [[dict(resume=True, damage="no", fault=f, pos=p) for f, p in x] for x in FIXED] + [b["plan"] for b in r.emitted]
    jobs = []
    for i, p in enumerate(plans):
        jobs.append(dict(plan=p, seed=vlib.SEED * 1000 + i, npool=2 if i % 6 == 5 else 1, dlogz=0.5, sample=["rwalk", "acceptance-walk", "unif", "act-walk"][i % 4],
                         chunk=[60, 90, 35][i % 3]))
    outs = run_jobs(chk, "c02_driver.py", jobs, "lives")
    chk.validate("lives", "ResumeTrace", outs, invariants=["Report"], keyfn=lambda t, bad: None)
