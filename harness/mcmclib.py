"""Drives BilbyMCMCSampler / BilbyPTMCMCSampler with scripted proposals and random numbers."""
import copy
import math
import numpy as np
import vlib
from vlib import close

bilby = vlib.bilby_quiet()
from bilby.core.prior import Prior, PriorDict, DeltaFunction
from bilby.core.utils import random as brandom
from bilby.core.sampler import base_sampler
from bilby.bilby_mcmc import sampler as ms, proposals
from bilby.bilby_mcmc.chain import Sample
from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY, ConvergenceInputs, ParallelTemperingInputs

NOISE = -3.0


def rem(x, m):
    return x % m


def spec_l(n, ne):
    if n % 11 == 5:
        return -np.inf
    if n % 17 == 7:
        return np.nan
    if n % 23 == 11 and ne == 1:
        return np.inf
    return float((n * 37) % 13 - 6)


def spec_p(n):
    return -np.inf if n % 7 == 3 else float((n * 29) % 5 - 5)


class Rng:
    """Stands in for the generator; every uniform draw gives the value set for the current step."""
    def __init__(self):
        self.u = 0.5
        self.real = np.random.default_rng(1)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.u

    def random(self, size=None):
        return self.u

    def __getattr__(self, name):
        return getattr(self.real, name)


class IdPrior(Prior):
    """Point number plus an offset; half of the log prior sits in each of the two parameters."""
    starts = []

    def __init__(self, off, name=None):
        super().__init__(name=name, latex_label=name, minimum=-1e6, maximum=1e6)
        self.off = off
        self.i = 0

    def sample(self, size=None):
        n = IdPrior.starts[self.i % len(IdPrior.starts)]
        self.i += 1
        return float(n + self.off)

    def ln_prob(self, val):
        n = int(round(val - self.off))
        return spec_p(n) / 2

    def prob(self, val):
        return np.exp(self.ln_prob(val))


class Like(bilby.Likelihood):
    def __init__(self, ne, ratio):
        super().__init__(parameters=dict(a=None, b=None, c=None))
        self.ne = ne
        self.ratio = ratio
        self.seen = []

    def _value(self):
        n = int(round(self.parameters["a"]))
        if self.parameters["b"] != n + 1000:
            raise AssertionError("likelihood evaluated at a mixed point %s" % dict(self.parameters))
        self.seen.append(n)
        return spec_l(n, self.ne)

    def log_likelihood(self):
        return self._value() + (NOISE if self.ratio else 0)

    def noise_log_likelihood(self):
        return NOISE if self.ratio else 0.0

    def log_likelihood_ratio(self):
        return self._value()


class Script:
    """What the current round prescribes, keyed by the chain's current point."""
    def __init__(self):
        self.steps = {}
        self.ens = {}
        self.errors = []
        self.rng = None


SCRIPT = Script()


class P(proposals.BaseProposal):
    label = 0

    def propose(self, chain):
        cur = chain.current_sample
        n = int(round(cur["a"]))
        todo = SCRIPT.steps.get(n)
        if not todo:
            SCRIPT.errors.append("a step was made from point %s, which is not a current point with steps left" % n)
            return cur, 0.0
        d = todo.pop(0)
        cur["a"], cur["b"] = float(d["to"]), float(d["to"] + 1000)
        SCRIPT.rng.u = math.exp(d["lu"] / 64)
        return cur, float(d["lf"])


class EP(proposals.EnsembleProposal):
    def propose(self, chain, chain_complement):
        cur = chain.current_sample
        n = int(round(cur["a"]))
        d = SCRIPT.ens.pop(n, None)
        if d is None:
            SCRIPT.errors.append("unexpected ensemble move from point %s" % n)
            return cur, 0.0
        others = sorted(int(round(c.current_sample["a"])) for c in chain_complement)
        if others != sorted(d["others"]):
            SCRIPT.errors.append("ensemble move from %s is offered %s, specification %s" % (n, others, sorted(d["others"])))
        cur["a"], cur["b"] = float(d["to"]), float(d["to"] + 1000)
        SCRIPT.rng.u = math.exp(d["lu"] / 64)
        return cur, float(d["lf"])


class Pool:
    """Worker processes as the samplers see them: arguments and results are copies."""
    def map(self, fn, items):
        return [copy.deepcopy(fn(copy.deepcopy(x))) for x in items]


def setup(ne, ratio, starts):
    IdPrior.starts = starts
    pri = PriorDict(dict(a=IdPrior(0, "a"), b=IdPrior(1000, "b"), c=DeltaFunction(2.0)))
    like = Like(ne, ratio)
    like.parameters["c"] = 2.0
    d = ms._sampling_convenience_dump
    d.likelihood, d.priors, d.use_ratio = like, pri, ratio
    d.search_parameter_keys = ["a", "b"]
    d.parameters = dict(a=None, b=None, c=2.0)
    return pri, like


def conv(l1, l2, **kw):
    d = dict(autocorr_c=5, burn_in_nact=10, thin_by_nact=1, fixed_discard=0, target_nsamples=10 ** 6,
             stop_after_convergence=False, L1steps=l1, L2steps=l2, min_tau=1, fixed_tau=None, tau_window=None)
    d.update(kw)
    return ConvergenceInputs(**{k: d[k] for k in ConvergenceInputs._fields})


def make_pt(b, pool=None):
    pri, like = setup(b["NE"], b["ratio"], b["start"])
    pt = dict(ntemps=b["NT"], nensemble=b["NE"], pt_ensemble=b["PTE"], Tmax=None, Tmax_from_SNR=None,
              initial_betas=[x / 8 for x in b["Beta8"]], adapt=False, adapt_t0=100, adapt_nu=10)
    pt = ParallelTemperingInputs(**{k: pt[k] for k in ParallelTemperingInputs._fields})
    cyc = proposals.ProposalCycle([P(pri), P(pri)])
    s = ms.BilbyPTMCMCSampler(convergence_inputs=conv(b["L1"], b["L2"]), pt_inputs=pt, proposal_cycle=cyc,
                              pt_rejection_sample=False, pool=pool, use_ratio=b["ratio"], evidence_method="stepping_stone",
                              initial_sample_method="prior", initial_sample_dict=None, normalize_prior=False)
    s.ensemble_proposal_cycle = proposals.ProposalCycle([EP(pri)])
    return s, like, cyc


def column(chain, key):
    return np.array(chain.get_1d_array(key))


def compare(smp, ids, b):
    ch = smp.chain
    got = [int(round(x)) for x in column(ch, "a")]
    if got != ids:
        return "stored points %s, specification %s" % (got, ids)
    if [int(round(x)) for x in column(ch, "b")] != [n + 1000 for n in ids]:
        return "second parameter %s does not belong to points %s" % (list(column(ch, "b")), ids)
    if not close(column(ch, LOGLKEY), [spec_l(n, b["NE"]) for n in ids]):
        return "stored log likelihoods %s are not those of points %s" % (list(column(ch, LOGLKEY)), ids)
    if not close(column(ch, LOGPKEY), [spec_p(n) for n in ids]):
        return "stored log priors %s are not those of points %s" % (list(column(ch, LOGPKEY)), ids)
    cur = ch.current_sample
    want = [float(ids[-1]), ids[-1] + 1000.0, spec_l(ids[-1], b["NE"]), spec_p(ids[-1])]
    if not close([cur["a"], cur["b"], cur[LOGLKEY], cur[LOGPKEY]], want):
        return "chain continues from %s, specification point %s" % (cur.list, ids[-1])


def replay(b):
    """Returns a description of the first difference, or None."""
    old = brandom.Generator.rng
    rng = Rng()
    SCRIPT.rng = rng
    # the random choices of the construction are not part of what is compared
    try:
        bilby.core.utils.random.seed(1)
        pool = Pool() if b.get("pool") else None
        pt, like, cyc = make_pt(b, pool)
        brandom.Generator.rng = rng
        order = b["order"]
        nacc = nrej = 0
        for r, h in enumerate(b["hist"]):
            SCRIPT.errors = []
            like.seen.clear()
            SCRIPT.steps = {}
            for l in h["steps"]:
                SCRIPT.steps[l[0]["from"]] = []
                cur = None
                for d in l:
                    SCRIPT.steps.setdefault(d["from"], []).append(d)
            SCRIPT.ens = {d["from"]: d for d in h["ens"]}
            # when the swaps are made no proposal is called: the last value set has to be the prescribed one
            orig = pt.swap_tempered_chains

            def swap():
                rng.u = math.exp(h["lu"] / 64)
                return orig()
            pt.swap_tempered_chains = swap
            pt.step_all_chains()
            pt.swap_tempered_chains = orig
            where = "round %d: " % r
            if SCRIPT.errors:
                return where + SCRIPT.errors[0]
            left = [d["to"] for v in SCRIPT.steps.values() for d in v] + [d["to"] for d in SCRIPT.ens.values()]
            if left:
                return where + "steps not made: %s" % left
            wantseen = sorted(d["to"] for l in h["steps"] for d in l if spec_p(d["to"]) > -np.inf)
            wantseen = sorted(wantseen + [d["to"] for d in h["ens"] if spec_p(d["to"]) > -np.inf])
            if pool is None and sorted(like.seen) != wantseen:
                return where + "likelihood evaluated at %s, specification %s" % (sorted(like.seen), wantseen)
            for c, (t, e) in enumerate(order):
                s = pt.sampler_dictionary[t][e]
                w = where + "temperature %d walker %d: " % (t, e)
                res = compare(s, h["pts"][c], b)
                if res:
                    return w + res
                n = h["cnt"][c]
                got = (s.accepted, s.rejected, s.pt_accepted, s.pt_rejected)
                if got != (n["a"], n["r"], n["sa"], n["sr"]):
                    return w + "counters %s, specification %s" % (got, n)
                if s.beta != b["Beta8"][t] / 8 or s.Tindex != t or s.Eindex != e:
                    return w + "inverse temperature %s at index %s,%s" % (s.beta, s.Tindex, s.Eindex)
            if pool is None:
                props = cyc.proposal_list
                nacc += sum(1 for l in h["steps"] for d in l if d["ok"])
                nrej += sum(1 for l in h["steps"] for d in l if not d["ok"])
                got = (sum(p.accepted for p in props), sum(p.rejected for p in props))
                if got != (nacc, nrej):
                    return where + "the proposals counted %s, specification %s" % (got, (nacc, nrej))
            if len(pt.sampler_list) != len(order) or pt.position != len(h["pts"][0]) - 1:
                return where + "%d samplers at position %d" % (len(pt.sampler_list), pt.position)
    finally:
        brandom.Generator.rng = old
