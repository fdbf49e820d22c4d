"""C17: parallel tempering exchanges states without losing any."""
import numpy as np
import vlib
from vlib import THOROUGH
import mcmclib
from mcmclib import brandom, proposals, ms, conv, ParallelTemperingInputs

INV = ["StartValid", "OnlyValid", "NoDuplicate", "Ladder", "Counts", "SwapConserves", "Emit"]
CFG = [  # NT NE PTE Beta8 L1 L2
    (2, 1, False, [8, 4], 1, 1),
    (3, 1, False, [8, 4, 1], 1, 2),
    (2, 2, True, [8, 2], 1, 1),
    (2, 3, False, [8, 4], 2, 1),
    (1, 3, False, [8], 1, 1),
    (4, 2, True, [8, 6, 3, 1], 1, 2),
    (3, 3, True, [8, 5, 0], 2, 3),
]


def const(c, **kw):
    return dict(NT=c[0], NE=c[1], PTE=c[2], Beta8=c[3], L1=c[4], L2=c[5], **kw)


def ladders(chk):
    """Adaptation of the ladder, recorded from free-running samplers."""
    traces = []
    for n in range(24 if THOROUGH else 8):
        nt = 3 + n % 3
        ne = 1 + (n // 2) % 2
        pte = bool(ne > 1 and n % 2)
        starts = [1, 2, 4, 6, 8, 9]
        pri, like = mcmclib.setup(ne, False, starts)
        brandom.seed(vlib.SEED + n)
        like._value = lambda: -0.5 * (like.parameters["a"] / 50) ** 2
        for p in ("a", "b"):
            pri[p].ln_prob = lambda v: 0.0
        if n % 2:
            betas = dict(initial_betas=[float(x) for x in np.r_[1, np.sort(np.random.RandomState(n).uniform(0.01, 0.95, nt - 1))[::-1]]], Tmax=None)
        else:
            betas = dict(initial_betas=None, Tmax=10.0 ** (1 + n % 4))
        t0 = [2, 100][n // 4 % 2]
        pt = dict(ntemps=nt, nensemble=ne, pt_ensemble=pte, Tmax_from_SNR=None, adapt=True, adapt_t0=t0, adapt_nu=[1, 10][n % 2], **betas)
        s = ms.BilbyPTMCMCSampler(convergence_inputs=conv(1, 1), pt_inputs=ParallelTemperingInputs(**{k: pt[k] for k in ParallelTemperingInputs._fields}),
                                  proposal_cycle=proposals.ProposalCycle([proposals.FixedGaussianProposal(pri, sigma=1e-4)]),
                                  pt_rejection_sample=False, pool=None, use_ratio=False, evidence_method="stepping_stone",
                                  initial_sample_method="prior", initial_sample_dict=None, normalize_prior=False)

        def look():
            return [[int(round(x.beta * 10 ** 9)) // 2 for x in col] for col in s.sampler_list_of_tempered_lists]
        ev = [dict(pos=s.position, b=look(), adaptend=0)]
        for _ in range(40):
            s.step_all_chains()
            ev.append(dict(pos=s.position, b=look(), adaptend=0 if s.position < t0 * 10 else 1,
                           zero=len(s.zerotemp_sampler_list), hot=len(s.tempered_sampler_list)))
        ev[0].update(zero=len(s.zerotemp_sampler_list), hot=len(s.tempered_sampler_list))
        traces.append(dict(nt=nt, ne=ne, pte=pte, t0=t0, events=ev))
    chk.validate("ladder", "Ladder", traces, invariants=["Report"])
    chk.validate("ladder-hot-end", "Ladder", [hot_end()], invariants=["Report"], keyfn=lambda t, bad: "second-hottest-passes-hottest")


def hot_end():
    """A finite hottest temperature next to a chain which keeps accepting less than its colder neighbour."""
    mcmclib.setup(1, False, [1, 2, 4])
    brandom.seed(vlib.SEED)
    pt = dict(ntemps=3, nensemble=1, pt_ensemble=False, Tmax_from_SNR=None, adapt=True, adapt_t0=100, adapt_nu=10, Tmax=None,
              initial_betas=[1, 0.5, 0.4])
    pri = ms._sampling_convenience_dump.priors
    s = ms.BilbyPTMCMCSampler(convergence_inputs=conv(1, 1), pt_inputs=ParallelTemperingInputs(**{k: pt[k] for k in ParallelTemperingInputs._fields}),
                              proposal_cycle=proposals.ProposalCycle([proposals.FixedGaussianProposal(pri, sigma=1e-4)]),
                              pt_rejection_sample=False, pool=None, use_ratio=False, evidence_method="stepping_stone",
                              initial_sample_method="prior", initial_sample_dict=None, normalize_prior=False)
    for x, (acc, rej) in zip(s.sampler_list, [(99, 1), (1, 99), (50, 50)]):
        x.accepted, x.rejected = acc, rej
    ev = []
    for i in range(15):
        ev.append(dict(pos=i, adaptend=0, zero=1, hot=2, b=[[int(round(x.beta * 10 ** 9)) // 2 for x in s.sampler_list]]))
        s.adapt_temperatures()
    return dict(nt=3, ne=1, pte=False, t0=100, events=ev)


def run(chk):
    a = [chk.start("exhaustive", "PTMCMC", constants=const(c, K=2, SeedSet=set(range(17)), Ratio=bool(i % 2)), invariants=INV)
         for i, c in enumerate(CFG[:4])]
    b = [chk.start("random", "PTMCMC", constants=const(c, K=10, SeedSet={0}, Ratio=bool(i % 2)), invariants=INV,
                   spec="SimSpec", simulate=200 if THOROUGH else 30, depth=13, seed=vlib.SEED + i) for i, c in enumerate(CFG)]
    ladders(chk)
    for r in a:
        chk.replay_all("exhaustive", chk.done(r).emitted, mcmclib.replay)
    for r in b:
        r = chk.done(r)
        chk.replay_all("random", r.emitted, mcmclib.replay)
        chk.replay_all("pool", [dict(b, pool=True) for b in r.emitted[:200 if THOROUGH else 10]], mcmclib.replay)
