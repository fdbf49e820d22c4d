"""Signals sent to real runs: lives of a process as the plans say."""
import faulthandler
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import time
import warnings
import bilby
from bilby.core.likelihood import Likelihood
import lives

bilby.core.utils.logger.setLevel("ERROR")
warnings.filterwarnings("ignore")
NUM = dict(term=signal.SIGTERM, int=signal.SIGINT, alrm=signal.SIGALRM)
CODE = 33
N = 6  # walkers
CALLS = multiprocessing.Value("i", 0)      # likelihood evaluations within the run
WORKER = multiprocessing.Value("i", 0)     # ... by workers
SENT = multiprocessing.Value("i", 0)       # events which were delivered
STATE = dict(main=0, user={}, queue=[], sent=0, lines=0, forks=0)
KW = dict(
    emcee=dict(nwalkers=N, nsteps=8, nburn=1),
    zeus=dict(nwalkers=N, nsteps=8, nburn=1),
    kombine=dict(nwalkers=16, iterations=16, nburn=1, autoburnin=False),
    nestle=dict(nlive=20, dlogz=1.0),
    dynesty=dict(nlive=20, dlogz=0.5, sample="rwalk", naccept=5, walks=5, check_point_plot=False),
    ptemcee=dict(nwalkers=8, ntemps=2, nsamples=20, check_point_delta_t=0.2, check_point_plot=False, min_tau=1, max_iterations=150),
    bilby_mcmc=dict(nsamples=30, L1steps=5, ntemps=2, check_point_delta_t=0.2, check_point_plot=False, printdt=1, proposal_cycle="default_noGMnoKD"),
)


def running(sig):
    """Whether the signal has another meaning than outside of the run."""
    return signal.getsignal(NUM[sig]) != STATE["user"][sig]


def due():
    """The event to come."""
    q, k = STATE["queue"], SENT.value - STATE["sent"]
    return q[k] if k < len(q) else None


def send(e):
    SENT.value += 1
    if e["to"] == "group":
        os.killpg(STATE["main"], NUM[e["s"]])
    elif e["to"] == "worker":
        os.kill(os.getpid(), NUM[e["s"]])
    else:
        os.kill(STATE["main"], NUM[e["s"]])


class Hit(Exception):
    pass


def call():
    """At every evaluation of the likelihood."""
    if not any(running(s) for s in NUM):
        return
    with CALLS.get_lock():
        CALLS.value += 1
        n = CALLS.value
        worker = os.getpid() != STATE["main"]
        WORKER.value += worker
        e = due()
        now = e is not None and e.get("call") and not e.get("again") and n >= e["call"] and (e["op"] == "raise" or e["to"] != "worker" or worker)
        if now:
            if e["op"] == "raise":
                SENT.value += 1
            else:
                send(e)
    if now and e["op"] == "raise":
        raise Hit("planned")


class L(Likelihood):
    def __init__(self):
        super().__init__(dict(a=0., b=0.))

    def log_likelihood(self):
        call()
        return -self.parameters["a"] ** 2 - self.parameters["b"] ** 2

    def noise_log_likelihood(self):
        return 0.


def tracer(frame, event, arg):
    name = frame.f_code.co_filename
    if "/bilby/core/sampler/" in name or "/bilby/bilby_mcmc/" in name:
        return line
    if name.endswith("/multiprocessing/pool.py"):
        e = due()
        if e is not None and e.get("forks") and not CALLS.value:
            return line
        if e is not None and e.get("registered") and frame.f_code.co_name == "__init__" and "set_length" not in frame.f_code.co_varnames and "chunksize" in frame.f_code.co_varnames:
            return registered
    return None


def registered(frame, event, arg):
    """Within a call of the pool, when it has been registered and before its tasks are handed out."""
    me = frame.f_locals.get("self")
    e = due()
    if event == "line" and os.getpid() == STATE["main"] and e is not None and e.get("registered") and CALLS.value >= 60 and hasattr(me, "_value"):
        send(e)
    return registered


def within(frame, name):
    while frame is not None:
        if name in frame.f_code.co_filename:
            return True
        frame = frame.f_back
    return False


def line(frame, event, arg):
    if event == "line" and os.getpid() == STATE["main"]:
        e = due()
        if e is not None and e.get("calls") and within(frame, "/emcee/"):
            return line  # the step is not complete yet
        if e is not None and e.get("line") and not e.get("again") and running(e["s"]) and CALLS.value >= e.get("calls", 0) and STATE["forks"] >= e.get("forks", 0):
            STATE["lines"] += 1
            if STATE["lines"] >= e["line"]:
                send(e)
    return line


def forked():
    if os.getpid() != STATE["main"]:
        return
    STATE["forks"] += any(running(s) for s in NUM)


os.register_at_fork(after_in_parent=forked)


def again(n):
    """Send a further signal while the state is written, as the n-th file is opened or renamed."""
    left = [n]

    def hook(args):
        if os.getpid() == STATE["main"] and isinstance(args[0], str) and not args[0].endswith((".dat", ".py", ".pyc", ".log")):
            e = due()
            if e is not None and e.get("again"):
                left[0] -= 1
                if left[0] <= 0:
                    send(e)
    lives.HOOKS["open"] = lives.HOOKS["rename"] = hook


def life(job, lv, out, res):
    """One process: its runs and the signals between them."""
    rng = random.Random(job["seed"])
    STATE.update(main=os.getpid(), lines=0, forks=0)
    own = dict(term=0, int=0, alrm=0)
    faulthandler.dump_traceback_later(job["timeout"] - 4, exit=False)
    report = dict(runs=[], own=own)

    def save():
        json.dump(report, open(res + ".tmp", "w"))
        os.rename(res + ".tmp", res)

    def handler(s):
        def f(num, frame):
            own[s] += 1
        return f
    for s, d in lv["user"].items():
        h = handler(s) if d == "own" else signal.SIG_IGN if d == "ignore" else (signal.default_int_handler if s == "int" else signal.SIG_DFL)
        signal.signal(NUM[s], h)
        STATE["user"][s] = h
    save()
    for i, e in enumerate(lv["events"]):
        STATE["sent"] = SENT.value
        if e["op"] == "sig" and e["phase"] == "out":
            save()
            os.kill(os.getpid(), NUM[e["s"]])
            time.sleep(0)
        elif e["op"] == "run":
            CALLS.value = WORKER.value = 0
            STATE.update(lines=0, forks=0, queue=e["queue"])
            save()
            again(1 + rng.randrange(4))
            if any(x.get("line") or x.get("registered") for x in e["queue"]):
                sys.settrace(tracer)
            rep = dict(np=e["np"], nr=e["nr"], raised=False)
            try:
                bilby.core.utils.random.seed(job["seed"])
                r = bilby.run_sampler(L(), dict(a=bilby.core.prior.Gaussian(0, 1), b=bilby.core.prior.Gaussian(0, 1)), sampler=job["sampler"],
                                      outdir=out, label="r%d" % e["nr"], npool=e["np"], exit_code=CODE, resume=True, save=True, plot=False,
                                      **KW[job["sampler"]])
                rep.update(samples=len(r.posterior), steps=None)
                if job["sampler"] == "emcee":
                    rep["steps"] = int(r.walkers.shape[1])
                elif job["sampler"] in ("zeus", "kombine"):
                    rep["steps"] = int(r.walkers.shape[0] if job["sampler"] == "zeus" else r.walkers.shape[1])
            except Hit:
                rep["raised"] = True
            finally:
                sys.settrace(None)
                rep.update(calls=CALLS.value, worker=WORKER.value, forks=STATE["forks"], sent=SENT.value - STATE["sent"])
            lives.HOOKS["open"] = lives.HOOKS["rename"] = None
            STATE["queue"] = []
            rep["back"] = {s: signal.getsignal(NUM[s]) == STATE["user"][s] for s in NUM}
            rep["workers"] = len(multiprocessing.active_children())
            report["runs"].append(rep)
            save()
    save()


def drive(job):
    out = []
    for b, plan in enumerate(job["plans"]):
        d = os.path.join(job["dir"], "out%d" % b)
        os.makedirs(d)
        reports = []
        for k, lv in enumerate(plan["lives"]):
            res = os.path.join(d, "res%d" % k)
            CALLS.value = WORKER.value = SENT.value = 0
            STATE["sent"] = 0
            j = dict(sampler=plan["sampler"], seed=plan["seed"], timeout=plan.get("timeout", 90))
            code, err, _, alive = lives.fork(lambda: life(j, lv, os.path.join(d, "o"), res), os.path.join(d, "err"), timeout=j["timeout"])
            rep = json.load(open(res)) if os.path.exists(res) else dict(runs=[], own=None)
            rep.update(code=code, err=err[-6000:], alive=alive, calls=CALLS.value, sent=SENT.value, worker=WORKER.value)
            reports.append(rep)
        shutil.rmtree(d, ignore_errors=True)
        out.append(reports)
    return out


if __name__ == "__main__":
    lives.main(drive)
