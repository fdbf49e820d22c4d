"""C01: checkpoint and pickle files are replaced atomically."""
import json
import os
import shutil
import subprocess
import sys
import vlib
from vlib import THOROUGH, newdir

HERE = os.path.dirname(os.path.abspath(__file__))


def build():
    d = newdir("shim_")
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
    return so


def start(so, job, name):
    d = newdir("c01_")
    job["dir"] = d
    jf, of = os.path.join(d, "job.json"), os.path.join(d, "out.json")
    json.dump(job, open(jf, "w"))
    e = dict(os.environ, LD_PRELOAD=so, TQDM_DISABLE="1")
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "c01_driver.py"), jf, of], env=e, stdout=subprocess.DEVNULL,
                         stderr=open(os.path.join(d, "err"), "w"), cwd=d)
    return p, of, d, name


def collect(chk, run):
    p, of, d, name = run
    try:
        p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        raise vlib.MachineryError("driver %s timed out" % name)
    if not os.path.exists(of):
        raise vlib.MachineryError("driver %s failed: %s" % (name, open(os.path.join(d, "err")).read()[-2000:]))
    out = json.load(open(of))
    if out["error"]:
        if "/bilby/" in out["error"]:
            chk.violation(name, "exception from bilby: " + out["error"][-1800:])
        else:
            raise vlib.MachineryError("driver %s: %s" % (name, out["error"]))
    for b in out["bad"][:5]:
        chk.violation(name, b)
    if "checkpoints" in out:
        chk.count(name, checkpoints=out["checkpoints"], operations=sum(len(t["events"]) for t in out["traces"]), traces=len(out["traces"]))
    else:
        chk.count(name, cases=out["cases"])
    shutil.rmtree(d, ignore_errors=True)
    return out["traces"]


def run(chk):
    so = build()
    modes = [1, 2, 3, 4]
    fr = [i / 40 for i in range(40)] if THOROUGH else [0.0, 0.1, 0.35, 0.6, 0.85, 0.93, 0.99]
    faults = [[f, m] for f in fr for m in modes]
    writers = [("dump", "pickle", "small", "all"), ("dump", "dill", "bytes", "all"), ("dump", "named", "large", "all"),
               ("ifo", False, "", "all"), ("ifo", True, "", faults)]
    few = faults if THOROUGH else [[f, m] for f in (0.0, 0.5, 0.9, 0.99) for m in (1, 3, 4)]
    jobs = [start(so, dict(kind="writers", writers=writers), "writers")]
    runs = dict(dynesty=dict(nlive=50, dlogz=2.0, check_point_delta_t=0, n_check_point=150, naccept=3, sample="rwalk", check_point_plot=False),
                bilby_mcmc=dict(nsamples=30, L1steps=5, ntemps=2, check_point_delta_t=0.2, check_point_plot=False, printdt=1, proposal_cycle="default_noGMnoKD"),
                ptemcee=dict(nwalkers=8, ntemps=2, nsamples=20, check_point_delta_t=0.2, check_point_plot=False, min_tau=1, max_iterations=150),
                emcee=dict(nwalkers=8, nsteps=60))
    for k in sorted(runs):
        jobs.append(start(so, dict(kind="sampler", name=k, kw=runs[k], at=[1, 3], faults=few), "checkpoint of " + k))
    jobs.append(start(so, dict(kind="reconstruction", seed=vlib.SEED, n=200 if THOROUGH else 14, modes=modes if THOROUGH else [1, 4]), "reconstruction cache"))
    C = 2
    r = chk.tlc("histories", "SafeWrite", constants=dict(N=3 if THOROUGH else 2, C=C, SharedTemp=False), invariants=["Atomic", "Emit"], properties=["Settles"])
    jobs.append(start(so, dict(kind="histories", hists=r.emitted, C=C), "histories"))
    chk.tlc("model", "SafeWrite", constants=dict(N=4, C=3, SharedTemp=False), invariants=["Atomic"], properties=["Settles"])
    bad = chk.tlc("shared temporary file", "SafeWrite", constants=dict(N=2, C=2, SharedTemp=True), invariants=["Atomic"], allow_violation=True)
    if not bad.violation:
        raise vlib.MachineryError("the model accepts a temporary file shared with the interrupted write")
    traces = []
    for j in jobs:
        traces += collect(chk, j)
    chk.validate("file operations", "SafeWriteTrace", traces, invariants=["Report"])
