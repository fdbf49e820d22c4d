"""C19: proposals respect boundaries and cycles."""
import itertools
import numpy as np
import vlib
from vlib import THOROUGH, close
import mcmclib
from mcmclib import brandom, proposals, PriorDict, DeltaFunction, Sample, LOGLKEY, LOGPKEY
from bilby.bilby_mcmc.chain import Chain
from bilby.core.prior import Uniform, Gaussian, PowerLaw, Sine, Constraint
from bilby.core.sampler import proposal as jumps
import bilby

SYMM = dict(none=None, periodic="periodic", reflective="reflective")


class Scripted(proposals.BaseProposal):
    point, lf = None, 0

    def propose(self, chain):
        s = chain.current_sample
        for k in self.parameters:
            s[k] = self.point[k]
        return s, self.lf


class ScriptedE(proposals.EnsembleProposal):
    point, lf = None, 0

    def propose(self, chain, chain_complement):
        s = chain.current_sample
        for k in self.parameters:
            s[k] = self.point[k]
        return s, self.lf


class J(jumps.JumpProposal):
    pass


def boundaries(chk):
    r = chk.tlc("boundary", "Boundary", invariants=["Inside", "FoldIsEven", "Emit"],
                constants=dict(W=4, Reach=5, Kinds={"none", "periodic", "reflective"}, LogFactors={0, 1}))
    cache = {}

    def pri(kind, lo, w):
        k = (kind, lo, w)
        if k not in cache:
            cache[k] = PriorDict({n: Uniform(lo[i], lo[i] + w[i], n, boundary=SYMM[kind[i]]) for i, n in enumerate("pq")})
        return cache[k]
    units = [((0.0, 0.0), (4.0, 4.0)), ((-1.3, 2.1), (0.7, 6.2832)), ((100.0, -7.0), (4.0, 0.5))]
    n = [0]

    def check(b):
        lo, w = units[n[0] % 3]
        n[0] += 1
        kind = tuple(b["kind"])
        p = pri(kind, lo, w)
        at = lambda i, x: lo[i] + w[i] * x / b["W"]
        ok = lambda got, i, res: any(close(got, at(i, x), 1e-9, 1e-9) for x in res)
        chain = Chain(Sample({"p": at(0, 1), "q": at(1, 1), LOGLKEY: 0.0, LOGPKEY: 0.0}))
        before = chain.current_sample.list
        for cls, extra in ((Scripted, {}), (ScriptedE, {})):
            if cls is ScriptedE:
                if not b["second"]:
                    continue
                prop = cls(p)
            else:
                prop = cls(p, subset=None if b["second"] else ["p"])
            prop.point = {"p": at(0, b["x"][0]), "q": at(1, b["x"][1])}
            prop.lf = b["lf"]
            new, lf = prop(chain, [chain]) if cls is ScriptedE else prop(chain)
            for i, k in enumerate("pq"):
                if not ok(float(new[k]), i, b["res"][i]):
                    return "%s: %s at %s (lo %s width %s), specification positions %s" % (cls.__name__, k, new[k], lo[i], w[i], b["res"][i])
            if lf != b["lf"] or set(new.parameter_keys) != {"p", "q"}:
                return "log factor %s or keys %s" % (lf, new.parameter_keys)
            if chain.current_sample.list != before:
                return "current point changed"
        if b["second"] and b["lf"] == 0:
            new = J(p)(jumps.Sample({"p": at(0, b["x"][0]), "q": at(1, b["x"][1])}))
            for i, k in enumerate("pq"):
                if not ok(new[k], i, b["jump"][i]):
                    return "JumpProposal: %s at %s (lo %s width %s), specification positions %s" % (k, new[k], lo[i], w[i], b["jump"][i])
    bs = r.emitted
    np.random.RandomState(vlib.SEED).shuffle(bs)
    chk.replay_all("boundary", bs, check, max_seconds=300 if THOROUGH else 25)


class Gauss(bilby.Likelihood):
    def __init__(self, keys):
        super().__init__(parameters={k: None for k in keys})

    def log_likelihood(self):
        return -0.5 * sum(((v - 0.3) / 0.2) ** 2 for v in self.parameters.values())


def scale(v):
    return int(round(float(v) * 1e6))


def box(rs, n, mixed=True):
    p = PriorDict()
    kinds = []
    for i in range(n):
        b = [None, "periodic", "reflective"][rs.randint(3)] if mixed else None
        lo = float(rs.choice([0.0, -1.5, 0.25]))
        p["x%d" % i] = Uniform(lo, lo + float(rs.choice([1.0, 2.0])), "x%d" % i, boundary=b)
    p["fixed"] = DeltaFunction(3.0)
    return p


def chain_of(p, rs, n=12):
    keys = p.non_fixed_keys
    ch = None
    for i in range(n):
        s = Sample({**{k: float(p[k].minimum + (p[k].maximum - p[k].minimum) * (0.05 + 0.9 * rs.rand())) if np.isfinite(p[k].width) else float(rs.randn())
                       for k in keys}, LOGLKEY: float(-i), LOGPKEY: -1.0})
        if ch is None:
            ch = Chain(s)
        else:
            ch.append(s)
    return ch


def snapshot(ch, keys):
    return [list(ch.get_1d_array(k)) for k in keys]


def record(kind, prop, p, ch, rs, calls=12, expect=None, call=None, extra=None, phases=None):
    keys = list(p.non_fixed_keys)
    u = (lambda k, v: int(round(float(v) / np.pi * 1e6)) if phases and k in phases else scale(v))
    allkeys = keys + [LOGLKEY, LOGPKEY]
    ev = []
    for _ in range(calls):
        cur = ch.current_sample
        before = snapshot(ch, allkeys)
        new, lf = call(prop, ch) if call else prop(ch)
        after = ch.current_sample
        want = expect(prop, cur, new, lf) if expect else 0.0
        e = dict(cur=[u(k, cur[k]) for k in keys], new=[u(k, new[k]) for k in keys if k in new.parameter_keys],
                 after=[u(k, after[k]) for k in keys], stored=int(snapshot(ch, allkeys) == before),
                 lf=scale(lf), want=scale(want), lfzero=int(lf == 0))
        if len(new.parameter_keys) != len(keys):
            e["new"] = []
        if extra:
            e.update(extra(cur, new))
        ev.append(e)
        if rs.rand() < 0.4:
            new[LOGLKEY], new[LOGPKEY] = 0.5, -0.5
            ch.append(new)
        if rs.rand() < 0.5:
            prop.accepted += 1
        else:
            prop.rejected += 1
    fin = [bool(np.isfinite(p[k].width)) for k in keys]
    return dict(kind=kind, kinds=[p[k].boundary or "none" for k in keys], proposed=[k in prop.parameters for k in keys],
                lo=[u(k, p[k].minimum) if f else -10 ** 8 for k, f in zip(keys, fin)],
                hi=[u(k, p[k].maximum) if f else 10 ** 8 for k, f in zip(keys, fin)], finite=fin, cls=type(prop).__name__, events=ev)


def line_dev(cur, new, keys, points, pairs=True):
    """Distance of the move from the closest direction given by the points, in units of 1e-6."""
    c = np.array([cur[k] for k in keys])
    d = np.array([new[k] for k in keys]) - c
    best, z = np.inf, 1.0
    if np.linalg.norm(d) < 1e-12:
        return 0, 1.0
    cand = [(b - a) for a, b in itertools.permutations(points, 2)] if pairs else [c - a for a in points]
    for v in cand:
        n = np.linalg.norm(v)
        if n < 1e-9:
            continue
        dev = np.linalg.norm(d - v * np.dot(d, v) / n ** 2) / max(1.0, np.linalg.norm(d))
        if dev < best:
            best, z = dev, 1 + np.dot(d, v) / n ** 2
    return best, z


def moves(chk):
    rs = np.random.RandomState(vlib.SEED)
    brandom.seed(vlib.SEED)
    traces = []
    P = proposals
    reps = 12 if THOROUGH else 3
    for rep in range(reps):
        for n in (1, 2, 4):
            p = box(rs, n)
            keys = list(p.non_fixed_keys)
            sub = [k for k in keys if rs.rand() < 0.6] or [keys[0]]
            for subset in (None, sub):
                big = dict(sigma=float(rs.choice([0.1, 3.0])))
                traces.append(record("fixed", P.FixedGaussianProposal(p, subset=subset, **big), p, chain_of(p, rs), rs))
                traces.append(record("adaptive", P.AdaptiveGaussianProposal(p, subset=subset, sigma=int(rs.choice([1, 4]))), p, chain_of(p, rs), rs))
                traces.append(record("fixed", P.DifferentialEvolutionProposal(p, subset=subset), p, chain_of(p, rs), rs))
                traces.append(record("uniform", P.UniformProposal(p, subset=subset), p, chain_of(p, rs), rs))

                def pr(prop, cur, new, lf):
                    ks = prop.parameters
                    return sum(p[k].ln_prob(cur[k]) - p[k].ln_prob(new[k]) for k in ks)
                traces.append(record("prior", P.PriorProposal(p, subset=subset), p, chain_of(p, rs), rs, expect=pr))
                jp = P.FixedJumpProposal(p, jumps=0.375, subset=subset, scale=0.0)
                t = record("jump", jp, p, chain_of(p, rs), rs)
                t["jump"] = [375000] * len(keys)
                t["wrap"] = [int(round(p[k].width * 1e6)) if p[k].boundary == "periodic" else 10 ** 9 for k in keys]
                if all(p[k].boundary != "reflective" for k in jp.parameters):
                    traces.append(t)
                for cls in (P.KDEProposal, P.GMMProposal):
                    def de(prop, cur, new, lf):
                        if not prop.trained:
                            return 0.0
                        f = (lambda q: prop.density.logpdf([q[k] for k in prop.parameters])[0]) if cls is P.KDEProposal else \
                            (lambda q: prop.density.score_samples(np.atleast_2d([q[k] for k in prop.parameters]))[0])
                        return f(cur) - f(new)
                    np.random.seed(rep)
                    if cls is P.KDEProposal or (rep == 0 and n > 1):
                        traces.append(record("density", cls(p, subset=subset, first_fit=4, fit_multiplier=2, nsamples_for_density=40), p, chain_of(p, rs, 30), rs, expect=de))
                like = Gauss(keys + ["fixed"])
                like.parameters["fixed"] = 3.0
                if subset is None and n < 4:
                    traces.append(record("fisher", P.FisherMatrixProposal(p, update_interval=3), p, chain_of(p, rs), rs, calls=5,
                                         call=lambda q, c: q(c, likelihood=like, priors=p)))
            # moves along lines, without boundaries
            if n > 1:
                q = box(rs, n, mixed=False)
                pts = []

                def chain3():
                    ch = chain_of(q, rs, 3)
                    pts[:] = [np.array(x) for x in zip(*[ch.get_1d_array(k) for k in q.non_fixed_keys])]
                    return ch
                for _ in range(4):
                    ch = chain3()
                    ex = lambda cur, new: dict(dev=min(10 ** 6, scale(line_dev(cur, new, keys, pts)[0])), z=10 ** 6)
                    traces.append(record("line", P.DifferentialEvolutionProposal(q), q, ch, rs, calls=1, extra=ex))
                    ch = chain3()

                    def exz(cur, new):
                        d, z = line_dev(cur, new, keys, pts, False)
                        return dict(dev=min(10 ** 6, scale(d)), z=scale(z))

                    def stretch(prop, cur, new, lf):
                        d, z = line_dev(cur, new, keys, pts, False)
                        still = all(cur[k] == new[k] for k in keys)
                        return lf if still else (len(keys) - 1) * np.log(z)
                    traces.append(record("stretch", P.StretchProposal(q), q, ch, rs, calls=1, expect=stretch, extra=exz))
                    ch = chain_of(q, rs, 5)
                    others = [chain_of(q, rs, 5) for _ in range(3)]
                    pts[:] = [np.array([o.current_sample[k] for k in keys]) for o in others]
                    traces.append(record("stretch", P.EnsembleStretch(q), q, ch, rs, calls=1, expect=stretch, extra=exz, call=lambda a, c: a(c, others)))
        # phase and polarisation
        for key in ("phase", "delta_phase"):
            p = PriorDict(dict(psi=Uniform(0, np.pi, "psi", boundary="periodic"), theta_jn=Sine(name="theta_jn"), other=Gaussian(0, 1, "other")))
            p[key] = Uniform(0, 2 * np.pi, key, boundary="periodic")
            keys = list(p.non_fixed_keys)
            for kind, prop in (("phase", P.PhaseReversalProposal(p, fuzz=False)), ("psi", P.PolarisationReversalProposal(p, fuzz=False)),
                               ("phasepsi", P.PhasePolarisationReversalProposal(p, fuzz=False)), ("correlated", P.CorrelatedPolarisationPhaseJump(p)),
                               ("fixed", P.PhaseReversalProposal(p)), ("fixed", P.PolarisationReversalProposal(p)), ("fixed", P.PhasePolarisationReversalProposal(p))):
                for _ in range(2):
                    ch = chain_of(p, rs, 3)
                    sgn = int(np.sign(np.cos(ch.current_sample["theta_jn"])))
                    t = record(kind, prop, p, ch, rs, calls=1, phases=("psi", key))
                    t["s"] = dict(iphase=keys.index(key) + 1, ipsi=keys.index("psi") + 1, dphase=key == "delta_phase", sgn=sgn)
                    used = {"phase": [key], "psi": ["psi"], "phasepsi": [key, "psi"], "correlated": [key, "psi"]}.get(kind, [key, "psi"])
                    t["proposed"] = [k in used for k in keys]
                    traces.append(t)
    chk.validate("moves", "Proposals", traces, invariants=["Report"], keyfn=lambda t, bad: t["cls"])


def jump_moves(chk):
    """Jump proposals of bilby.core.sampler: a point in, a point of the same parameters inside the ranges out."""
    rs = np.random.RandomState(vlib.SEED + 7)
    brandom.seed(vlib.SEED + 7)
    traces = []
    for rep in range(20 if THOROUGH else 6):
        for n in (1, 3):
            p = PriorDict({k: v for k, v in box(rs, n).items() if k != "fixed"})
            keys = list(p)
            coords = [jumps.Sample({k: float(p[k].minimum + p[k].width * rs.rand()) for k in keys}) for _ in range(6)]
            keep = [dict(c) for c in coords]
            for prop in (jumps.NormJump(2.0, p), jumps.EnsembleWalk(priors=p, n_points=3, low=-3, high=3), jumps.EnsembleStretch(priors=p, scale=5.0),
                         jumps.DifferentialEvolution(priors=p, mu=3.0), jumps.EnsembleEigenVector(priors=p), jumps.DrawFlatPrior(p)):
                ev = []
                for _ in range(6):
                    cur = jumps.Sample({k: float(p[k].minimum + p[k].width * rs.rand()) for k in keys})
                    given = dict(cur)
                    new = prop(cur, coordinates=coords, sampler_name="x")
                    want = prop.log_j
                    if isinstance(prop, jumps.EnsembleStretch) and all(p[k].boundary is None for k in keys):
                        # the factor by which the distance to the chosen point has grown
                        want = None
                        for c in keep:
                            z = [(new[k] - c[k]) / (given[k] - c[k]) for k in keys]
                            if np.ptp(z) < 1e-9 and z[0] > 0 and (want is None or abs(len(keys) * np.log(z[0]) - prop.log_j) < abs(want - prop.log_j)):
                                want = len(keys) * np.log(z[0])
                        want = 99.0 if want is None else want
                    cs = [scale(given[k]) for k in keys]
                    ev.append(dict(cur=cs, after=cs, new=[scale(new[k]) for k in keys] if list(new) == keys else [], lfzero=1,
                                   stored=int([dict(c) for c in coords] == keep), lf=scale(prop.log_j), want=scale(want)))
                kind = "prior" if isinstance(prop, jumps.DrawFlatPrior) else "fixed"
                traces.append(dict(kind=kind, kinds=[p[k].boundary or "none" for k in keys], proposed=[True] * n, finite=[True] * n, cls="J" + type(prop).__name__,
                                   lo=[scale(p[k].minimum) for k in keys], hi=[scale(p[k].maximum) for k in keys], events=ev))
    chk.validate("jump-moves", "Proposals", traces, invariants=["Report"], keyfn=lambda t, bad: t["cls"])


def cycles(chk):
    p = box(np.random.RandomState(1), 2)
    traces = []
    for n in range(24 if THOROUGH else 8):
        brandom.seed(vlib.SEED + n)
        w = [[1, 1], [3, 1, 1], [1], [10, 10, 0.5, 10], [5, 1]][n % 5]
        props = [Scripted(p, weight=x) for x in w]
        c = proposals.ProposalCycle(props)
        period = c.nproposals
        ids = {id(q): i + 1 for i, q in enumerate(props)}
        ev = [ids.get(id(c.get_proposal()), 0) for _ in range(2 * period + 3)]
        traces.append(dict(period=period, weight=[int(1e4 * x / sum(w)) for x in w], weighted=1, drawall=1, drawnone=0, events=ev))
        hit = []
        fs = [lambda k=k, **kw: hit.append(k + 1) for k in range(len(w))]
        wj = list(w) + [0]
        fs.append(lambda **kw: hit.append(len(wj)))
        jc = jumps.JumpProposalCycle(fs, wj, cycle_length=[100, 37][n % 2])
        if n % 3 == 0:
            jc.update_cycle()
        for _ in range(2 * jc.cycle_length + 5):
            jc()
        traces.append(dict(period=jc.cycle_length, weight=[int(1e4 * x / sum(wj)) for x in wj], weighted=1, drawall=0, drawnone=len(wj), events=list(hit)))
    # cycles requested by name: exactly the listed kinds, without the ones switched off
    kinds = ["AdaptiveGaussianProposal", "DifferentialEvolutionProposal", "UniformProposal", "KDEProposal", "FisherMatrixProposal", "GMMProposal"]
    code = dict(AG=1, DE=2, UN=3, KD=4, FM=5, GM=6)
    for r in range(0, 4):
        for off in itertools.combinations(sorted(code), r):
            c = proposals.get_proposal_cycle("default" + "".join("no" + o for o in off), p, warn=False)
            got = sorted(kinds.index(type(q).__name__) + 1 for q in c.proposal_list)
            want = sorted(set(range(1, 7)) - {code[o] for o in off})
            chk.replayed("named", 1)
            # the Fisher proposal is an adaptive Gaussian one, and may be switched off with these
            if got != want and not ("AG" in off and got == [g for g in want if g != 5]):
                chk.violation("named", "cycle without %s has %s, expected %s" % (off, [kinds[g - 1] for g in got], [kinds[g - 1] for g in want]))
    chk.validate("cycles", "Cycle", traces, invariants=["Report"])


def run(chk):
    boundaries(chk)
    moves(chk)
    jump_moves(chk)
    cycles(chk)
