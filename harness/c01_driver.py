"""Runs under the shim: performs writes with faults and reports what was found on disk. argv: job file, output file."""
import ctypes
import json
import os
import pickle
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bilby = vlib.bilby_quiet()
import dill
import numpy as np
from bilby.core.utils import safe_file_dump

shim = ctypes.CDLL(os.environ["LD_PRELOAD"])
shim.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
shim.shim_count.restype = ctypes.c_long
HOOK = []


def audit(event, args):
    if HOOK and event == "os.rename":
        f = HOOK.pop()
        f()


sys.addaudithook(audit)


def child(d, log, at, mode, fn):
    """fn() in a child process with a fault at the at-th file operation: (done | error | crashed, number of operations)"""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            lf = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND) if log else -1
            shim.shim_arm(d.encode(), lf, at, mode)
            try:
                fn()
                code = 0
            except BaseException:
                code = 5
            n = shim.shim_count()
            shim.shim_arm(b"", -1, -1, 0)
            os.write(w, str(n).encode())
        finally:
            os._exit(code)
    os.close(w)
    s = b""
    while True:
        x = os.read(r, 100)
        if not x:
            break
        s += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 78
    return {0: "done", 5: "error", 77: "crashed"}.get(code, "died %d" % code), int(s or 0)


def parse(log, final):
    ev = []
    if os.path.exists(log):
        for line in open(log):
            line = line.rstrip("\n")
            op, _, rest = line.partition(" ")
            if op == "open":
                fd, tr, p = rest.split(" ", 2)
                ev.append(dict(op="open", fd=int(fd), a=p))
            elif op == "write":
                ev.append(dict(op="write", fd=int(rest.split()[0])))
            elif op == "close":
                ev.append(dict(op="close", fd=int(rest)))
            elif op in ("rename", "link"):
                a, b = rest.split("\t")
                ev.append(dict(op=op, a=a, b=b))
            elif op == "unlink":
                ev.append(dict(op="unlink", a=rest))
    return ev


# ---------------------------------------------------------------- writers: (write(version), read() -> version or 0)

def payload(kind, v):
    if kind == "small":
        return dict(v=v)
    if kind == "bytes":
        return dict(v=v, x=[bytes([v]) * 70000, "a" * 10, bytes([v]) * 5000], end=v)
    return dict(v=v, a=np.full(30000, v), l=[v] * 50000, end=v)


def check_payload(kind, x):
    v = x["v"]
    y = payload(kind, v)
    for k in y:
        if not np.all(np.array(x[k] == y[k])):
            return -1
    return v


def writer_dump(d, module, kind):
    fn = os.path.join(d, "checkpoint.pickle")
    mod = dict(pickle=pickle, dill=dill).get(module, module)
    if module == "named":
        mod = "dill"

    def read():
        if not os.path.exists(fn):
            return 0
        try:
            with open(fn, "rb") as f:
                return check_payload(kind, dill.load(f))
        except Exception:
            return -1
    return (lambda v: safe_file_dump(payload(kind, v), fn, mod)), read, fn


def writer_ifo(d, many):
    from bilby.gw.detector import Interferometer, InterferometerList, get_empty_interferometer

    def make(v):
        ifo = get_empty_interferometer("H1")
        ifo.set_strain_data_from_frequency_domain_strain(np.full(65, v, complex), sampling_frequency=128, duration=1)
        if many:
            b = get_empty_interferometer("L1")
            b.set_strain_data_from_frequency_domain_strain(np.full(65, v, complex), sampling_frequency=128, duration=1)
            return InterferometerList([ifo, b])
        return ifo
    probe = os.path.join(d, "probe")
    make(1).to_pickle(outdir=probe, label="x")
    name = os.listdir(probe)[0]
    fn = os.path.join(d, name)

    def read():
        if not os.path.exists(fn):
            return 0
        try:
            x = (InterferometerList if many else Interferometer).from_pickle(fn)
            vals = [np.real(i.strain_data._frequency_domain_strain[3]) for i in (x if many else [x])]
            return int(vals[0]) if len(set(vals)) == 1 else -1
        except Exception:
            return -1
    return (lambda v: make(v).to_pickle(outdir=d, label="x")), read, fn


def experiments(writer, plans, d, out, name):
    """plans: lists of [at (fraction of the operations or None), mode]"""
    write, read, fn = writer
    log = os.path.join(os.path.dirname(d), "log_" + os.path.basename(d))
    res, n = child(d, log, -1, 0, lambda: write(1))
    out["traces"].append(trace(parse(log, fn), fn, [], name + " first write"))
    os.remove(log)
    seen = read()
    ev = [dict(op="outcome", res=res, fault="none", want=1, seen=seen)]
    res, n = child(d, log, -1, 0, lambda: write(2))
    out["traces"].append(trace(parse(log, fn), fn, [fn], name + " rewrite"))
    seen = read()
    ev.append(dict(op="outcome", res=res, fault="none", want=2, seen=seen))
    v = 2
    if plans == "all":
        plans = [[i, m] for i in range(n) for m in (1, 2, 3, 4)]
    k = 0
    for at, mode in plans:
        if isinstance(at, float):
            at = int(at * n)
        v = v % 100 + 1
        if mode == 0:
            at = -1
        res, _ = child(d, None, at, mode, lambda: write(v))
        ev.append(dict(op="outcome", res="done" if res == "done" else res, fault="none" if mode == 0 else "op %d of %d mode %d" % (at, n, mode), want=v, seen=read()))
        k += 1
        if k % 3 == 0:
            v = v % 100 + 1
            res, _ = child(d, None, -1, 0, lambda: write(v))
            ev.append(dict(op="outcome", res=res, fault="none", want=v, seen=read()))
    out["traces"].append(dict(events=ev, paths=[fn], fds=[0], finals=[fn], exist=[], name=name + " with faults"))
    return n


def trace(ev, fn, exist, name, finals=None):
    # paths are given short names
    paths = sorted({e[k] for e in ev for k in ("a", "b") if k in e} | {fn} if fn else {e[k] for e in ev for k in ("a", "b") if k in e})
    short = {p: os.path.basename(p) for p in paths}
    if len(set(short.values())) != len(short):
        short = {p: p for p in paths}
    for e in ev:
        for k in ("a", "b"):
            if k in e:
                e[k] = short[e[k]]
    return dict(events=ev, paths=[short[p] for p in paths], fds=sorted({e["fd"] for e in ev if "fd" in e} | {0}),
                finals=[short[p] for p in (finals if finals is not None else [fn])], exist=[short[p] for p in exist], name=name)


# ---------------------------------------------------------------- histories of the specification

class Chunky:
    """Stand-in for pickle: writes the data in C chunks, something may happen in between."""

    def __init__(self, c):
        self.c = c
        self.at = None
        self.hook = None

    def pieces(self, v):
        return [bytes([v]) * 3000 for _ in range(self.c)]

    def dump(self, v, file):
        for i, p in enumerate(self.pieces(v)):
            if self.at == i and self.hook:
                self.hook()
            file.write(p)
        if self.at == self.c and self.hook:
            self.hook()

    def dumps(self, v):
        if self.at is not None and self.hook:
            self.hook()
        return b"".join(self.pieces(v))


def history(b, c, d):
    """Perform one history; the content after every write, and the expected one."""
    fn = os.path.join(d, "h.pickle")
    for k, h in enumerate(b["hist"]):
        def act():
            m = Chunky(c)
            inner = Chunky(c)

            def nested():
                safe_file_dump(h["nest"], fn, inner)
                sys.exit(130)

            def crash():
                os._exit(77)

            def fail():
                raise OSError("no space")
            f = dict(nested=nested, crash=crash, fail=fail).get(h["ev"])
            if f:
                if h["ph"] == "new":
                    f()
                elif h["ph"] == "open":
                    m.at, m.hook = h["pos"], f
                else:
                    HOOK.append(f)
            safe_file_dump(h["id"], fn, m)
        res, _ = child(d, None, -1, 0, act)
        want = dict(done="done", crash="crashed", fail="error", nested="error")[h["ev"]]
        if res != want:
            return "write %d of %s ended as %s instead of %s" % (k, b["hist"], res, want)
        x = open(fn, "rb").read() if os.path.exists(fn) else b""
        exp = b"".join(Chunky(c).pieces(h["after"])) if h["after"] else b""
        if x != exp:
            return "after write %d of %s the file holds %d bytes from %s instead of the complete content %d" % (k, b["hist"], len(x), sorted(set(x))[:5], h["after"])
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)


# ---------------------------------------------------------------- samplers

def sampler_run(job, d, out):
    """A real run; at some of its checkpoints, the write is also performed in child processes with faults."""
    import bilby.core.sampler as bs
    from bilby.core.likelihood import AnalyticalMultidimensionalCovariantGaussian as G
    name = job["name"]
    outdir = os.path.join(d, "run")
    os.makedirs(outdir)
    cls = bs.get_implemented_samplers and bs.IMPLEMENTED_SAMPLERS[name]
    if not isinstance(cls, type):
        cls = cls.load()
    orig = cls.write_current_state
    state = dict(n=0, ev=[], v=0)
    log = os.path.join(d, "log")
    copy = os.path.join(d, "copy")
    os.makedirs(copy, exist_ok=True)

    def target(self):
        return dict(dynesty=lambda: self.sampler, bilby_mcmc=lambda: self.ptsampler, emcee=lambda: self._sampler,
                    ptemcee=lambda: self.sampler)[name]()

    def load():
        fns = [os.path.join(p, f) for p, _, fs in os.walk(outdir) for f in fs if f.endswith((".pickle", ".pkl"))]
        if not fns:
            return 0, ""
        fn = fns[0]
        try:
            with open(fn, "rb") as f:
                x = dill.load(f)
            if name == "ptemcee":
                x = x["sampler"]
            return getattr(x, "vmarker", -2), fn
        except Exception:
            return -1, fn

    def wrapped(self, *a, **k):
        state["n"] += 1
        if state["n"] in job["at"]:
            t = target(self)
            ops = None
            state["v"] = max(load()[0], 0)
            state["ev"] = [dict(op="outcome", res="done", fault="none", want=state["v"], seen=state["v"])]
            for at, mode in [[None, 0]] + job["faults"] + [[None, 0]]:
                state["v"] += 1
                t.vmarker = state["v"]
                i = -1 if mode == 0 else min(ops - 1, int(at * ops))
                res, n = child(outdir, None, i, mode, lambda: orig(self, *a, **k))
                if ops is None:
                    ops = n
                seen, fn = load()
                state["ev"].append(dict(op="outcome", res=res, fault="none" if mode == 0 else "op %d of %d mode %d" % (i, ops, mode), want=state["v"], seen=seen))
            out["traces"].append(dict(events=state["ev"], paths=["f"], fds=[0], finals=["f"], exist=[], name=name + " checkpoint with faults"))
        return orig(self, *a, **k)
    cls.write_current_state = wrapped
    lf = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    bilby.core.utils.random.seed(5)
    pri = bilby.core.prior.PriorDict({"x%d" % i: bilby.core.prior.Uniform(-5, 5) for i in range(2)})
    like = G(mean=np.zeros(2), cov=np.eye(2))
    pri = bilby.core.prior.PriorDict({k: bilby.core.prior.Uniform(-5, 5) for k in like.parameters})
    shim.shim_arm(outdir.encode(), lf, -1, 0)
    try:
        bilby.run_sampler(like, pri, sampler=name, outdir=outdir, label="l", save=False, plot=False, **job["kw"])
    finally:
        shim.shim_arm(b"", -1, -1, 0)
    ev = [e for e in parse(log, None) if any(str(e.get(k, "")).endswith((".pickle", ".pkl", ".temp")) for k in ("a", "b")) or e["op"] in ("write", "close")]
    fds = set()
    keep = []
    for e in ev:
        if e["op"] == "open":
            fds.add(e["fd"])
        elif e["op"] == "write":
            continue
        elif e["op"] == "close":
            if e["fd"] not in fds:
                continue
            fds.discard(e["fd"])
        keep.append(e)
    fin = sorted({e[k] for e in keep for k in ("a", "b") if k in e and e[k].endswith((".pickle", ".pkl"))})
    out["traces"].append(trace(keep, None, [], name + " run", finals=fin))
    out["checkpoints"] = state["n"]


def reconstruction(d, out, job):
    """The cache of a reconstruction survives a crash at every file operation, and the next run completes."""
    import pandas as pd
    from bilby.gw import conversion
    from bilby.core.utils import random

    class Marg:
        _marginalized_parameters = ["phase"]
        label = "lab"

        def __init__(self, outdir):
            self.outdir = outdir
            self.parameters = dict()

        def generate_posterior_sample_from_marginalized_likelihood(self):
            return dict(self.parameters, phase=self.parameters["x"] + random.rng.uniform(0, 1))
    sys.stdout = open(os.devnull, "w")
    like = Marg(d)
    samples = pd.DataFrame(dict(x=np.arange(7.0), phase=np.zeros(7)))

    def go(fn=None):
        random.seed(11)
        r = conversion.generate_posterior_samples_from_marginalized_likelihood(samples.copy(), like, npool=1, block=2)
        if fn:
            np.save(fn, r["phase"].values)
        return r["phase"].values
    log = d + "_log"
    _, n = child(d, log, -1, 0, go)
    ev = parse(log, None)
    fin = [f for f in os.listdir(d) if not f.endswith(".temp")]
    f = os.path.join(d, fin[0])
    out["traces"].append(trace(ev, f, [], "reconstruction"))
    ref = np.load(f, allow_pickle=True)
    os.remove(f)
    random.seed(11)
    bad = []
    want = go()
    os.remove(f)
    r = np.random.RandomState(job["seed"])
    for i in sorted(r.choice(n, min(n, job["n"]), replace=False)):
        for mode in job["modes"]:
            for g in os.listdir(d):
                os.remove(os.path.join(d, g))
            res, _ = child(d, None, int(i), mode, go)
            if os.path.exists(f):
                try:
                    with open(f, "rb") as g:
                        x = pickle.load(g)
                    assert len(x["_samples"]) == 7
                except Exception as e:
                    bad.append("the cache is unusable (%r) after %s at operation %d of %d, mode %d" % (e, res, i, n, mode))
                    continue
            tmp = d + "_res.npy"
            res2, _ = child(d, None, -1, 0, lambda: go(tmp))
            if res2 != "done" or not np.array_equal(np.load(tmp), want):
                bad.append("the reconstruction repeated after %s at operation %d of %d, mode %d ended as %s or with other samples" % (res, i, n, mode, res2))
            out["cases"] += 1
    out["bad"] += bad


def main():
    job = json.load(open(sys.argv[1]))
    d = os.path.join(job["dir"], "d")
    os.makedirs(d)
    out = dict(traces=[], bad=[], cases=0, error=None)
    try:
        if job["kind"] == "histories":
            for b in job["hists"]:
                w = history(b, job["C"], d)
                out["cases"] += 1
                if w:
                    out["bad"].append(w)
                    break
        elif job["kind"] == "writers":
            for i, (kind, a, b2, plans) in enumerate(job["writers"]):
                q = os.path.join(d, "w%d" % i)
                os.makedirs(q)
                w = writer_dump(q, a, b2) if kind == "dump" else writer_ifo(q, a)
                out["cases"] += experiments(w, plans, q, out, "%s %s %s" % (kind, a, b2))
        elif job["kind"] == "sampler":
            sampler_run(job, d, out)
        elif job["kind"] == "reconstruction":
            reconstruction(d, out, job)
    except Exception:
        import traceback
        out["error"] = traceback.format_exc()
    json.dump(out, open(sys.argv[2], "w"), default=str)


main()
