"""Performs one plan of several lives of a Bilby-MCMC run."""
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bilby = vlib.bilby_quiet()
import lives
import dill
import numpy as np
import matplotlib
matplotlib.use("agg")
from bilby.core.prior import PriorDict, Uniform
from bilby.bilby_mcmc.sampler import Bilby_MCMC

IDS = {}
SLEEP = 0.25
HOOK = dict(f=None)


class Like(bilby.Likelihood):
    def __init__(self):
        super().__init__(dict(a=0.0, b=0.0))

    def log_likelihood(self):
        if HOOK["f"]:
            HOOK["f"]()
        return -0.5 * (self.parameters["a"] ** 2 + self.parameters["b"] ** 2) * 4


def ident(row):
    return IDS.setdefault(np.asarray(row, float).tobytes(), len(IDS) + 1)


EMPTY = dict(has=False, s=[], t=0, swaps=0)


def read_disk(fn):
    if not os.path.exists(fn) or not os.path.getsize(fn):
        return dict(EMPTY), ""
    try:
        with open(fn, "rb") as f:
            pt = dill.load(f)
        problem = ""
        if pt.pool is not None:
            problem = "the worker pool is part of the checkpoint"
        s = []
        for x in pt.sampler_list:
            ids = []
            for i in range(x.chain.position + 1):
                q = x.chain[i]
                v = q.sample_dict
                ids.append(ident([v[k] for k in sorted(v)]))
                if not check(v):
                    problem = problem or "a stored step is not a point with its own log likelihood and log prior: %s" % {k: float(z) for k, z in v.items()}
            if not check(x.chain.current_sample.sample_dict):
                problem = problem or "the current sample is not a point with its own log likelihood and log prior"
            s.append(dict(T=x.Tindex, E=x.Eindex, chain=ids, beta=int(round(x.beta * 10**8)), acc=x.accepted, rej=x.rejected, pt=x.pt_accepted + x.pt_rejected))
        return dict(has=True, s=s, t=int(round(pt.sampling_time * 1000)), swaps=int(pt.swap_counter["temperature"])), problem
    except Exception:
        return dict(EMPTY), "the checkpoint is unusable: " + traceback.format_exc()[-300:]


def check(v):
    a, b = v["a"], v["b"]
    ll, lp = [v[k] for k in v if k not in ("a", "b")][:2]
    want = sorted([-2 * (a ** 2 + b ** 2), -2 * np.log(10)])
    return np.allclose(sorted([ll, lp]), want, rtol=1e-9, atol=1e-9)


def settings(job, h):
    kw = dict(nsamples=job["nsamples"], L1steps=5, L2steps=2, ntemps=job["ntemps"], nensemble=job["nensemble"], pt_ensemble=job["ptens"], check_point_delta_t=0.06,
              check_point_plot=False, printdt=0.4, proposal_cycle="default_noGMnoKD", npool=job["npool"], Tmax=9, adapt=job["adapt"], adapt_t0=20, verbose=False)
    if job["betas"]:
        kw["initial_betas"] = list(np.linspace(1, 0.2, job["ntemps"]))
    ch = h["change"]
    if ch == "ntemps":
        kw["ntemps"] += 1
        kw.pop("initial_betas", 0)
    elif ch == "Tmax":
        kw["Tmax"] = 16
    elif ch == "betas":
        kw["initial_betas"] = list(np.linspace(1, 0.3, job["ntemps"]))
    elif ch == "adapt":
        kw["adapt"] = not kw["adapt"]
    elif ch == "array" and "initial_betas" in kw:
        kw["initial_betas"] = np.array(kw["initial_betas"])   # the same ladder in another container
    elif ch == "thin":
        kw.update(thin_by_nact=1.2, nsamples=job["nsamples"] + 5)  # not a parallel-tempering setting: continued
    return kw


def live_process(d, k, h, job):
    kind, _, where = h["fault"].partition("_")
    act = lives.action(kind)
    c = dict(calls=0, ckpt=0, slept=False, on=False)
    me = os.getpid()
    n0 = job["ntemps"] * job["nensemble"] + 1
    orig = Bilby_MCMC.run_sampler

    def run_sampler(self, *a, **kw):
        c["on"] = True
        c["me"] = self
        if where == "time":
            lives.after(0.1 + 0.11 * h["pos"], act)
        return orig(self, *a, **kw)
    Bilby_MCMC.run_sampler = run_sampler
    start = [0]

    def hook():
        if not c["on"] or os.getpid() != me:
            return
        c["calls"] += 1
        if where == "first" and c["calls"] == 1:
            act()
        elif where == "step" and c["calls"] == 37 * h["pos"] + start[0] % 7:
            act()
        if not c["slept"] and c["calls"] > n0:
            c["slept"] = True
            time.sleep(SLEEP)
            open(os.path.join(d, "slept"), "w").close()

    def renaming(args):
        if where == "ckpt" and "resume" in str(args[0]):
            c["ckpt"] += 1
            if c["ckpt"] == 1 + h["pos"] % 4:
                os._exit(lives.KILLED)
    if where == "line":
        lines(act, h["pos"], c)
    elif where == "lines":
        lines(None, 0, c)
    HOOK["f"] = hook
    lives.HOOKS["rename"] = renaming
    bilby.core.utils.random.seed(100 * job["seed"] + k)
    r = bilby.run_sampler(Like(), PriorDict(dict(a=Uniform(-5, 5), b=Uniform(-5, 5))), sampler="bilby_mcmc", outdir=d, label="l", save=False, plot=False,
                          resume=h["resume"], exit_code=lives.EXIT, **settings(job, h))
    v = r.samples
    v = v if hasattr(v, "columns") else r.posterior
    p = r.posterior
    json.dump(dict(a=list(map(float, p["a"])), b=list(map(float, p["b"])), ll=list(map(float, p["log_likelihood"])), t=float(getattr(r.sampling_time, "total_seconds", lambda: r.sampling_time)()),
                   steps=int(r.meta_data["bilby_mcmc"]["total_steps"]), nlike=int(r.meta_data["run_statistics"]["nlikelihood"])), open(os.path.join(d, "result.json"), "w"))


def lines(act, pos, c):
    """The fault happens at one of the lines of the module holding the chains"""
    import bilby.bilby_mcmc.chain as mod
    fn = mod.__file__
    n = [0]
    at = 3000 + 613 * pos if act else 40000

    def probe():
        """What a signal arriving here would write"""
        for x in c["me"].ptsampler.sampler_list:
            if not check(x.chain[-1].sample_dict):
                raise AssertionError("a signal would store a step which is not a point with its own log likelihood and log prior")

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if act is None and hasattr(c["me"], "ptsampler") and n[0] > 2000:
                probe()
            if n[0] == at:
                sys.settrace(None)
                if act:
                    act()
        return local

    def tr(frame, event, arg):
        if c["on"] and frame.f_code.co_filename == fn and n[0] < at:
            return local
    sys.settrace(tr)


def drive(job):
    out = dict(events=[], error="")
    d = job["dir"] + "/run"
    os.makedirs(d)
    fn = os.path.join(d, "l_resume.pickle")
    prev, _ = read_disk(fn)
    for k, h in enumerate(job["plan"]):
        dm = h["damage"]
        if dm != "no" and not lives.damage(fn, dm, 0.05 + 0.1 * h["pos"]):
            dm = "no"
        for f in ("result.json", "slept"):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))
        before = lives.stamp(fn)
        time.sleep(0.2 if k else 0)
        t0 = time.time()
        code, err, t1, alive = lives.fork(lambda: live_process(d, k, h, job), os.path.join(job["dir"], "err%d" % k))
        after = lives.stamp(fn)
        wrote = after is not None and after != before
        outcome = {0: "done", lives.EXIT: "signal", lives.KILLED: "crash", 8: "refused"}.get(code, "other")
        problem, disk = "", prev
        if outcome == "other":
            problem = "the process ended with %s: %s" % (code, err)
        elif outcome == "signal" and h["fault"].split("_")[0] not in ("term", "int", "alrm"):
            problem = "the process exits as interrupted without a signal"
        elif alive:
            problem = "worker processes are left behind"
        if wrote or dm == "no":
            disk, p2 = read_disk(fn)
            problem = problem or p2
        else:
            disk = dict(EMPTY)
        slept = os.path.exists(os.path.join(d, "slept"))
        mt = os.stat(fn).st_mtime if wrote else t1
        changed = h["change"] in ("ntemps", "Tmax", "betas", "adapt")
        ev = dict(resume=h["resume"], damage=dm, changed=changed, outcome=outcome, wrote=wrote, disk=disk, lo=int(SLEEP * 1000) - 2 if slept else 0,
                  hi=int((mt - t0) * 1000) + 3, problem=problem, first=h["fault"].endswith("_first") and outcome == "signal", plain=job["nensemble"] == 1, adapt=settings(job, h)["adapt"],
                  rt=0, rhi=int((t1 - t0) * 1000) + 3, steps=0, fault=h["fault"], change=h["change"], nsamplers=len(disk["s"]))
        if outcome == "done":
            r = json.load(open(os.path.join(d, "result.json")))
            zero = {}
            for x in disk["s"]:
                if x["T"] == 0:
                    for i in x["chain"]:
                        zero[i] = 1
            pts = {}
            for b, i in IDS.items():
                if i in zero:
                    pts[tuple(np.round(np.frombuffer(b), 9))] = 1
            for a, b, ll in zip(r["a"], r["b"], r["ll"]):
                if not np.isclose(ll, -2 * (a ** 2 + b ** 2)):
                    ev["problem"] = ev["problem"] or "a sample of the result has the log likelihood of another point"
                if not any(set(np.round([a, b], 9)) <= set(q) for q in pts):
                    ev["problem"] = ev["problem"] or "a sample of the result is not a step of the zero-temperature chain"
            ev.update(rt=int(round(r["t"] * 1000)), steps=r["steps"])
        out["events"].append(ev)
        prev = disk
        if ev["problem"]:
            break
    return out


if __name__ == "__main__":
    lives.main(drive)
