"""Performs one plan of several lives of a dynesty run. argv: job file, output file."""
import json
import os
import pickle
import signal
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bilby = vlib.bilby_quiet()
import dill
import numpy as np
import dynesty  # noqa
from bilby.core.prior import PriorDict, Uniform

NLIVE = 30
IDS = {}
ACTIVE = dict(f=None)
SLEEP = 0.3


def ident(u, it):
    """A point is identified by its coordinates and the iteration in which it was proposed."""
    return IDS.setdefault((np.asarray(u, float).tobytes(), int(it)), len(IDS) + 1)


def audit(event, args):
    f = ACTIVE["f"]
    if f is not None and event == "os.rename":
        f(args)


sys.addaudithook(audit)


class Like(bilby.Likelihood):
    def __init__(self):
        super().__init__(dict(a=0.0, b=0.0))
        self.hook = None

    def log_likelihood(self):
        if HOOK["f"]:
            HOOK["f"]()
        return -0.5 * (self.parameters["a"] ** 2 + self.parameters["b"] ** 2) * 4


HOOK = dict(f=None)


def read_disk(fn):
    e = dict(has=False, dead=[], live=[], t=0, ncall=0, it=1)
    if not os.path.exists(fn):
        return e, ""
    try:
        with open(fn, "rb") as f:
            s = dill.load(f)
        it = int(s.it)
        rec = [ident(u, i) for u, i in zip(s.saved_run["u"], s.saved_run["it"])]
        logl = list(s.saved_run["logl"])
        live = [ident(u, i) for u, i in zip(s.live_u, s.live_it)]
        extra = rec[it - 1:]
        problem = ""
        n = len(rec)
        for k in ("v", "logl", "logvol"):
            if len(s.saved_run[k]) != n:
                problem = "the lists of recorded quantities have different lengths"
        if any(x not in live for x in extra) or len(set(extra)) != len(extra):
            problem = "points which are neither dead nor live are recorded"
        if len(s.saved_run["it"]) != n:
            problem = "the lists of recorded quantities have different lengths"
        for u, v, ll in zip(list(s.saved_run["u"]) + list(s.live_u), list(s.saved_run["v"]) + list(s.live_v), logl + list(s.live_logl)):
            if not np.allclose(np.asarray(u) * 10 - 5, v) or not np.isclose(float(getattr(ll, "val", ll)), -2 * np.sum(np.asarray(v) ** 2)):
                problem = "a recorded point has coordinates or a log likelihood of another one"
        if any(logl[i] > logl[i + 1] for i in range(it - 2)):
            problem = "the dead points are not ordered by likelihood"
        t = s.kwargs.get("sampling_time") if isinstance(getattr(s, "kwargs", None), dict) else None
        return dict(has=True, dead=rec[:it - 1], live=live, t=-1 if t is None else int(round(t.total_seconds() * 1000)), ncall=int(s.ncall), it=it), problem
    except Exception:
        return e, "the checkpoint is unusable: " + traceback.format_exc()[-300:]


def damage(fn, how, r):
    if not os.path.exists(fn):
        return False
    data = open(fn, "rb").read()
    if how == "empty":
        data = b""
    elif how == "cut":
        data = data[:int(len(data) * r)]
    elif how == "garbage":
        data = bytes((x * 7 + 13) % 256 for x in data[:500])
    elif how == "foreign":
        data = pickle.dumps(dict(a=1))
    open(fn, "wb").write(data)
    return True


def live_process(d, k, h, job, started):
    """One life: returns through the file with the result"""
    kind, _, where = h["fault"].partition("_")
    act = dict(kill=lambda: os._exit(77), term=lambda: os.kill(os.getpid(), signal.SIGTERM), int=lambda: os.kill(os.getpid(), signal.SIGINT),
               alrm=lambda: os.kill(os.getpid(), signal.SIGALRM)).get(kind)
    c = dict(calls=0, iters=0, adds=0, ckpt=0, slept=False)
    npool = job["npool"]

    def print_func(results, niter, ncall=None, add_live_it=None, **kw):
        if add_live_it is None:
            c["iters"] += 1
            if not c["slept"]:
                c["slept"] = True
                time.sleep(SLEEP)
                open(os.path.join(d, "slept"), "w").close()
            if where == "iter" and npool > 1 and c["iters"] >= h["pos"] * 9:
                act()
        else:
            c["adds"] += 1
            if where == "add" and c["adds"] == h["pos"] * 5 - 4 + (NLIVE if h["pos"] % 2 else 0):
                act()

    def hook():
        if where == "init":
            c["calls"] += 1
            if c["calls"] == h["pos"] * 3 + 2 and os.getpid() == me and INIT[0]:
                act()
        elif where == "iter" and npool == 1 and c["iters"] >= h["pos"] * 9:
            act()

    def renaming(args):
        if where == "ckpt" and "resume" in str(args[0]):
            c["ckpt"] += 1
            if c["ckpt"] == 1 + h["pos"] % 4:
                os._exit(77)
    me = os.getpid()
    INIT = [True]
    if where == "init":
        # only evaluations of the sampler itself are counted
        import bilby.core.sampler.dynesty as bd
        INIT[0] = False
        orig = bd.Dynesty.run_sampler

        def run_sampler(self, *a, **kw):
            INIT[0] = True
            return orig(self, *a, **kw)
        bd.Dynesty.run_sampler = run_sampler
    HOOK["f"] = hook
    ACTIVE["f"] = renaming
    bilby.core.utils.random.seed(100 * job["seed"] + k)
    pri = PriorDict(dict(a=Uniform(-5, 5), b=Uniform(-5, 5)))
    r = bilby.run_sampler(Like(), pri, sampler="dynesty", outdir=d, label="l", save=False, plot=False, resume=h["resume"], npool=npool,
                          nlive=NLIVE, dlogz=job["dlogz"], sample=job["sample"], naccept=2, nact=1, walks=5, maxmcmc=50, bound="live",
                          print_func=print_func, check_point_plot=False, n_check_point=job["chunk"], check_point_delta_t=0, exit_code=91)
    order = r.nested_samples
    u = (order[["a", "b"]].values + 5) / 10
    json.dump(dict(v=order[["a", "b"]].values.tolist(), logl=order["log_likelihood"].tolist(), t=r.sampling_time, ncall=r.num_likelihood_evaluations,
                   kw={q: repr(r.sampler_kwargs[q]) for q in sorted(r.sampler_kwargs) if q not in ("print_func", "rstate", "pool", "live_points")},
                   logz=r.log_evidence, label=r.label, keys=r.search_parameter_keys, end=time.time(), u=u.tolist()),
              open(os.path.join(d, "result.json"), "w"))


def main():
    job = json.load(open(sys.argv[1]))
    out = dict(events=[], nlive=NLIVE, error="", plan=job["plan"])
    d = job["dir"] + "/run"
    os.makedirs(d)
    fn = os.path.join(d, "l_resume.pickle")
    prev, _ = read_disk(fn)
    kw0 = None
    for k, h in enumerate(job["plan"]):
        dm = h["damage"]
        if dm != "no" and not damage(fn, dm, 0.05 + 0.1 * h["pos"]):
            dm = "no"
        for f in ("result.json", "slept"):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))
        before = (os.stat(fn).st_ino, os.stat(fn).st_mtime_ns) if os.path.exists(fn) else None
        time.sleep(0.35 if k else 0)
        t0 = time.time()
        err = os.path.join(job["dir"], "err%d" % k)
        pid = os.fork()
        if pid == 0:
            code = 5
            try:
                fd = os.open(err, os.O_WRONLY | os.O_CREAT)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                live_process(d, k, h, job, t0)
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 6
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        dead = time.time() + 120
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > dead:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = None
                break
            time.sleep(0.005)
        t1 = time.time()
        code = None if st is None else os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        wrote = os.path.exists(fn) and (os.stat(fn).st_ino, os.stat(fn).st_mtime_ns) != before
        outcome = {0: "done", 91: "signal", 77: "crash"}.get(code, "other")
        problem = ""
        disk = prev
        if outcome == "other":
            problem = "the process ended with %s: %s" % (code, open(err).read()[-1500:])
        elif outcome == "signal" and h["fault"].split("_")[0] not in ("term", "int", "alrm"):
            problem = "the process exits as interrupted without a signal"
        if wrote or dm == "no":
            disk, p2 = read_disk(fn)
            problem = problem or p2
        else:
            disk = dict(has=False, dead=[], live=[], t=0, ncall=0, it=1)
        slept = os.path.exists(os.path.join(d, "slept"))
        lo = int(SLEEP * 1000) - 2 if slept and outcome != "crash" else 0
        mt = os.stat(fn).st_mtime if wrote else t1
        ev = dict(resume=h["resume"], damage=dm, outcome=outcome, wrote=wrote, disk=disk, lo=lo, hi=int((mt - t0) * 1000) + 3, problem=problem,
                  phase=h["fault"].split("_")[-1], rhi=0, result=dict(ids=[], t=0, ncall=0), fault=h["fault"], pos=h["pos"])
        if outcome == "done":
            r = json.load(open(os.path.join(d, "result.json")))
            where = {}
            mine = set(disk["dead"]) | set(disk["live"])
            for (b, _), i in IDS.items():
                if i in mine:
                    where.setdefault(tuple(np.round(np.frombuffer(b) * 10 - 5, 9)), []).append(i)
            for q in where.values():
                q.sort(key=lambda i: (i in disk["live"], disk["dead"].index(i) if i in disk["dead"] else 0), reverse=True)
            ids = [(where.get(tuple(np.round(v, 9))) or [0]).pop() for v in r["v"]]
            if not np.allclose(r["logl"], -2 * np.sum(np.array(r["v"]) ** 2, axis=1)):
                ev["problem"] = ev["problem"] or "the log likelihoods of the result belong to other points"
            if kw0 is None:
                kw0 = r["kw"]
            elif r["kw"] != kw0:
                ev["problem"] = ev["problem"] or "the result of a resumed run has other settings: %s instead of %s" % (r["kw"], kw0)
            ev["result"] = dict(ids=ids, t=int(round(r["t"] * 1000)), ncall=r["ncall"])
            ev["rhi"] = int((t1 - t0) * 1000) + 3
        out["events"].append(ev)
        prev = disk
        if problem:
            break
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
