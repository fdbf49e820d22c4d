"""C20: settings reach the sampler under any equivalent name."""
import copy
import logging
import multiprocessing
import os
import signal
import sys
import types

import numpy as np

import vlib
from vlib import THOROUGH, newdir

bilby = vlib.bilby_quiet()
from bilby.core.likelihood import Likelihood
from bilby.core.prior import PriorDict, Uniform
from bilby.core.sampler import base_sampler

POINTS = ["nlive", "nlives", "n_live_points", "npoints", "npoint", "Nlive", "num_live_points", "num_particles"]
WALKS = ["walks", "steps", "nmcmc"]
POOL = ["npool", "queue_size", "threads", "nthreads", "cores", "n_pool"]
SEED = ["sampling_seed", "seed", "random_seed"]
WALKERS = ["nwalker", "nwalkers", "draws", "Niter"]


def G(native, equivs):
    return dict(native=native, equivs=[e for e in equivs if e != native])


NUMBERS = [e for e in POINTS if e != "nlives"]   # "nlives" is a setting of its own there
TABLE = {
    "nestle": dict(groups=[G("npoints", POINTS), G("steps", WALKS)], plain={"enlarge", "maxcall"}),
    "dynesty": dict(groups=[G("nlive", POINTS), G("walks", WALKS), G("queue_size", POOL),
                            G("print_progress", ["verbose"]), G("seed", SEED)], plain={"dlogz", "enlarge"}),
    "ultranest": dict(groups=[G("num_live_points", POINTS), G("show_status", ["verbose"])],
                      plain={"min_ess", "max_iters"}),
    "pymultinest": dict(groups=[G("n_live_points", POINTS), G("seed", SEED)],
                        plain={"max_modes", "evidence_tolerance"}),
    "pypolychord": dict(groups=[G("nlive", NUMBERS), G("seed", SEED)], plain={"num_repeats", "feedback"}),
    "cpnest": dict(groups=[G("nlive", POINTS), G("nthreads", POOL), G("seed", SEED)],
                   plain={"maxmcmc", "poolsize"}),
    "nessai": dict(groups=[G("nlive", POINTS), G("n_pool", POOL), G("seed", SEED)],
                   plain={"poolsize", "max_iteration"}),
    "dnest4": dict(groups=[G("num_steps", WALKS), G("seed", SEED)], plain={"num_particles", "new_level_interval"}),
    "emcee": dict(groups=[G("nwalkers", WALKERS), G("iterations", ["nsteps"])], plain={"thin", "a"}),
    "zeus": dict(groups=[G("nwalkers", WALKERS), G("iterations", ["nsteps"]), G("log_prob0", ["lnprob0"]),
                         G("start", ["rstate0"])], plain={"thin", "blobs0"}),
    "kombine": dict(groups=[G("nwalkers", WALKERS), G("iterations", ["nsteps"])],
                    plain={"update_interval", "kde_size"}),
    "ptemcee": dict(groups=[G("nwalkers", WALKERS), G("threads", POOL)], plain={"ntemps", "adaptation_lag"}),
    "ptmcmcsampler": dict(groups=[G("Niter", WALKERS), G("burn", ["nburn"])], plain={"neff", "thin"}),
    "bilby_mcmc": dict(groups=[G("printdt", ["print_dt", "print_update"]), G("npool", POOL),
                               G("check_point_delta_t", ["check_point_deltaT"])], plain={"L1steps", "nsamples"}),
}
UNKNOWN = {"no_such_setting", "nlivee"}
# every sampler has the pool size of the constructor: it is not assigned later
POOLS = {"dynesty": "queue_size", "cpnest": "nthreads", "nessai": "n_pool", "ptemcee": "threads",
         "bilby_mcmc": "npool"}


def value(sampler, name, k):
    """A distinct value for each name of each operation."""
    names = sorted({n for t in TABLE.values() for gr in t["groups"] for n in [gr["native"]] + gr["equivs"]}
                   | {n for t in TABLE.values() for n in t["plain"]} | UNKNOWN)
    i = names.index(name) + 100 * k
    if sampler == "kombine" and name in ("iterations", "nsteps"):
        return 2000 + i
    if name in POOL:
        return 2 + i % 100
    return 20 + i


class Reached(BaseException):
    def __init__(self, got):
        self.got = got


def stop(*args, **got):
    raise Reached(got)


class FakePool:
    last = None
    ends = False        # the run ends when the pool is made

    def __init__(self, processes=None, *a, **k):
        FakePool.last = processes
        if FakePool.ends:
            raise Reached({})
        self._processes = processes

    def map(self, f, x, *a):
        return list(map(f, x))

    def close(self):
        pass

    join = terminate = close


class Nothing(int):
    """Any method or count of a sampler which has not run."""
    def __call__(self, *a, **k):
        return None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Nothing()


class Ensemble:
    """Stands for the samplers with a constructor and a sample method."""
    def __init__(self, *a, **k):
        self.got = k
        self.pool = k.get("pool")
        self.chain = np.zeros((0, 0, 0))

    def sample(self, *a, **k):
        raise Reached(dict(self.got, **k))

    run = run_nested = run_sampler = burnin = run_mcmc = sample

    def __getattr__(self, name):
        if name in ("blobs",):
            raise AttributeError(name)
        return Nothing()


def module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if "." in name:
        parent, child = name.rsplit(".", 1)
        setattr(sys.modules[parent], child, m)
    return m


def installed(name):
    try:
        return __import__(name)
    except Exception:
        return None


def stand_ins():
    """Record what the samplers get instead of running them."""
    import nestle
    import emcee
    import zeus
    import kombine
    import ptemcee
    import dynesty
    nestle.sample = stop
    emcee.EnsembleSampler = Ensemble
    zeus.EnsembleSampler = Ensemble
    kombine.Sampler = Ensemble
    ptemcee.Sampler = Ensemble
    real = dynesty.NestedSampler

    def nested(*a, **k):
        raise Reached(k)
    nested.__wrapped__ = real
    dynesty.NestedSampler = nested
    module("ultranest")
    module("ultranest.integrator", NestedSampler=Ensemble, ReactiveNestedSampler=Ensemble)
    module("ultranest.stepsampler", StepSampler=type("StepSampler", (), {}))
    module("pymultinest", solve=stop)
    module("pymultinest.run")
    module("pypolychord", run_polychord=stop)
    module("pypolychord.settings", PolyChordSettings=stop)
    module("cpnest", CPNest=stop)
    module("cpnest.model", Model=type("Model", (), {}))
    module("cpnest.nest2pos", compute_weights=stop)
    module("cpnest.parameter", LivePoint=type("LivePoint", (), {}))
    module("cpnest.proposal", ProposalCycle=type("ProposalCycle", (), {}),
           EnsembleProposal=type("EnsembleProposal", (), {}))
    module("dnest4", DNest4Sampler=Ensemble)
    sys.modules["dnest4"].DNest4Sampler.sample = Ensemble.sample
    module("dnest4.backends", CSVBackend=Ensemble, MemoryBackend=Ensemble)
    module("PTMCMCSampler")
    module("PTMCMCSampler.PTMCMCSampler", PTSampler=Ensemble)
    module("nessai")
    module("nessai.utils", setup_logger=lambda *a, **k: None)
    defaults = dict(nlive=2000, n_pool=None, seed=1234, poolsize=10000, max_iteration=None, plot=True, output="",
                    resume=True, save=True, signal_handling=True)
    module("nessai.utils.bilbyutils", get_all_kwargs=lambda: copy.deepcopy(defaults),
           get_run_kwargs_list=lambda: ["save"])
    module("nessai.livepoint", dict_to_live_points=stop, live_points_to_array=stop)
    module("nessai.model", Model=type("Model", (), {}))
    module("nessai.flowsampler", FlowSampler=stop)
    multiprocessing.Pool = FakePool


stand_ins()


class Toy(Likelihood):
    def __init__(self):
        super().__init__(dict(a=0.5, b=0.5))

    def log_likelihood(self):
        return -0.5 * (self.parameters["a"] ** 2 + self.parameters["b"] ** 2)

    def noise_log_likelihood(self):
        return 0.0


def priors():
    return PriorDict(dict(a=Uniform(0, 1, "a"), b=Uniform(0, 1, "b")))


CLASSES = dict(bilby.core.sampler.IMPLEMENTED_SAMPLERS) if hasattr(
    bilby.core.sampler, "IMPLEMENTED_SAMPLERS") else dict(bilby.core.sampler.SAMPLERS)


def cls(name):
    c = CLASSES[name]
    return c.load() if hasattr(c, "load") else c


OUT = newdir("out")
DEFAULTS = {}


def construct(name, kwargs):
    extra = dict(outdir=OUT, label="s", plot=False, skip_import_verification=True)
    if name == "ptemcee":
        extra["check_point_plot"] = False
    return cls(name)(Toy(), priors(), **extra, **kwargs)


def setting(s, name, native):
    """The setting of the sampler object, or None if it has no place there."""
    if native in s.kwargs:
        return s.kwargs[native]
    if (name, native) == ("ptemcee", "threads"):
        return s.threads
    if (name, native) == ("bilby_mcmc", "npool"):
        return s.npool
    return "absent"


def snapshot(name):
    c = cls(name)
    d = c.__dict__.get("default_kwargs", None)
    if isinstance(d, property) or d is None:
        return None
    return copy.deepcopy(d)


def check_value(name, native, allowed, got, k, where):
    if "default" in allowed:
        want = [DEFAULTS[name][native]]
    else:
        want = [value(name, n, k) for n in allowed]
    if native == "print_progress" or native == "show_status" or native == "verbose":
        ok = any(bool(got) == bool(w) for w in want)
    else:
        ok = any((got is w) or (got == w) for w in want)
    if not ok:
        return "%s: %s %s is %r, expected %s (from %s)" % (name, where, native, got, want, sorted(allowed))


def rstate_of(v):
    return np.random.default_rng(v).bit_generator.state


def reach(name, s):
    old = {sig: signal.getsignal(sig) for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGALRM)}
    FakePool.last = None
    FakePool.ends = name == "bilby_mcmc"
    try:
        s.run_sampler()
    except Reached as r:
        return dict(r.got)
    finally:
        for sig, h in old.items():
            signal.signal(sig, h)
        for h in ("outputfiles_basename",):
            pass
    return None


PER = {}


def replay(b):
    s = None
    runs = 0
    for k, op in enumerate(b):
        name = op["sampler"]
        names = op["names"]
        pool = POOLS.get(name)
        given = {n: value(name, n, k) for n in names}
        before = dict(given)
        if op["op"] == "construct" or s is None:
            s = construct(name, given)
            built = True
        else:
            if name == "nestle":
                given.setdefault("verbose", False)
                before = dict(given)
            s.kwargs = given
            built = False
        if given != before:
            return "%s: the settings of the caller changed from %s to %s" % (name, before, given)
        d = snapshot(name)
        if d is not None and d != SNAP[name]:
            return "%s: the defaults of the class changed: %s" % (
                name, {x: (SNAP[name].get(x), d.get(x)) for x in set(d) | set(SNAP[name])
                       if SNAP[name].get(x, 0) != d.get(x, 0)})
        for u in UNKNOWN:
            if u in s.kwargs:
                return "%s: the unknown setting %s is kept" % (name, u)
        extra = set(s.kwargs) - set(DEFAULTS[name]) - {"callback", "pool", "target_nsamples", "outputfiles_basename"}
        if extra:
            return "%s: settings %s which the sampler does not know are kept" % (name, sorted(extra))
        wants = [(w["native"], w["allowed"]) for w in op["want"]["groups"]]
        wants += [(p, [v]) for p, v in op["want"]["plain"].items()]
        for native, allowed in wants:
            if native == pool and not built:
                continue
            if native == "seed" and name == "dynesty":
                r = s.kwargs.get("rstate")
                if "default" not in allowed:
                    if r is None or r.bit_generator.state not in [rstate_of(value(name, n, k)) for n in allowed]:
                        return "dynesty: the random state is not that of the seed given as %s" % allowed
                continue
            m = check_value(name, native, allowed, setting(s, name, native), k, "setting")
            if m:
                return m
        PER[name] = PER.get(name, 0) + 1
        if not built and k != len(b) - 1:
            continue
        if name == "bilby_mcmc" and "default" in dict(wants)["npool"]:
            if built and s.npool not in (None, 0, 1):
                return "bilby_mcmc: a pool of %s without being asked" % s.npool
        elif built and k == len(b) - 1:
            got = reach(name, s)
            runs += 1
            if got is None:
                return "%s: the external sampler was not called" % name
            for native, allowed in wants:
                if native == "start":
                    continue      # the start is replaced by the positions of the walkers
                if native == pool and name in ("dynesty", "bilby_mcmc"):
                    got[native] = FakePool.last
                    if "default" in allowed:
                        if FakePool.last not in (None, 0, 1):
                            return "%s: a pool of %s without being asked" % (name, FakePool.last)
                        continue
                if native == "seed" and name == "dynesty":
                    if "default" not in allowed and "rstate" in got:
                        if got["rstate"].bit_generator.state not in [rstate_of(value(name, n, k)) for n in allowed]:
                            return "dynesty: the sampler did not get the random state of the seed"
                    continue
                if native in got:
                    if name == "pypolychord" and "default" in allowed:
                        continue          # filled in from the number of dimensions
                    if native == "threads" and "default" in allowed:
                        continue
                    m = check_value(name, native, allowed, got[native], k, "the sampler got")
                    if m:
                        return m
                elif "default" not in allowed and (name, native) in REACHES:
                    return "%s: %s did not reach the sampler" % (name, native)
    return None


# the settings which are passed to the external sampler under their native names
REACHES = {("nestle", "npoints"), ("nestle", "steps"), ("nestle", "enlarge"), ("nestle", "maxcall"),
           ("dynesty", "nlive"), ("dynesty", "enlarge"), ("dynesty", "queue_size"),
           ("ultranest", "num_live_points"), ("pymultinest", "n_live_points"), ("pymultinest", "seed"),
           ("pymultinest", "max_modes"), ("pymultinest", "evidence_tolerance"),
           ("pypolychord", "nlive"), ("pypolychord", "seed"), ("pypolychord", "num_repeats"),
           ("pypolychord", "feedback"), ("cpnest", "nlive"), ("cpnest", "nthreads"), ("cpnest", "seed"),
           ("cpnest", "maxmcmc"), ("cpnest", "poolsize"), ("nessai", "nlive"), ("nessai", "n_pool"),
           ("nessai", "seed"), ("nessai", "poolsize"), ("nessai", "max_iteration"),
           ("dnest4", "num_steps"), ("dnest4", "seed"), ("dnest4", "num_particles"),
           ("dnest4", "new_level_interval"),
           ("emcee", "nwalkers"), ("emcee", "a"), ("emcee", "iterations"), ("emcee", "thin"),
           ("zeus", "nwalkers"), ("zeus", "iterations"), ("zeus", "thin"), ("zeus", "log_prob0"),
           ("zeus", "blobs0"), ("kombine", "nwalkers"), ("kombine", "iterations"),
           ("kombine", "update_interval"), ("kombine", "kde_size"),
           ("ptemcee", "nwalkers"), ("ptemcee", "threads"), ("ptemcee", "ntemps"), ("ptemcee", "adaptation_lag"),
           ("ptmcmcsampler", "Niter"), ("ptmcmcsampler", "burn"), ("ptmcmcsampler", "neff"),
           ("ptmcmcsampler", "thin")}
SNAP = {}


def run(chk):
    logging.disable(logging.CRITICAL)
    os.chdir(newdir("cwd"))
    for name in TABLE:
        s0 = construct(name, {})
        if SNAP.get(name) is None:
            SNAP[name] = snapshot(name)
        d = dict(s0.default_kwargs)
        for gr in TABLE[name]["groups"]:
            d.setdefault(gr["native"], 1)
        if name in ("cpnest", "nessai", "ptemcee", "bilby_mcmc"):
            d[POOLS[name]] = 1
        if name == "dynesty":
            d["walks"] = s0.kwargs["walks"]
        DEFAULTS[name] = copy.copy(d)
    consts = dict(Table=TABLE, Unknown=UNKNOWN, MaxNames=2, MaxOps=1, Sample=False)
    inv = ["Reaches", "NativeWins", "PlainKept", "UnknownDropped", "CallerUnchanged", "DefaultsUnchanged", "Emit"]
    r = chk.tlc("every pair of names", "Settings", constants=consts, invariants=inv)
    chk.replay_all("every pair of names", r.emitted, replay, max_seconds=None if THOROUGH else 30)
    for ops, names, num in ((3, 5, 350 if not THOROUGH else 8000), (2, 9, 150 if not THOROUGH else 4000)):
        part = "histories of %d operations with up to %d names" % (ops, names)
        r = chk.tlc(part, "Settings", constants=dict(consts, MaxNames=names, MaxOps=ops, Sample=True),
                    spec="SimSpec", invariants=inv, simulate=num, depth=400)
        chk.replay_all(part, r.emitted, replay, max_seconds=None if THOROUGH else 25)
    chk.count("operations per sampler", **PER)
