"""Performs histories of seeding and drawing; writes a digest of every draw. argv: job file, output file."""
import copy
import hashlib
import json
import os
import random as pyrandom
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bilby = vlib.bilby_quiet()
import numpy as np
import pandas as pd
from bilby.core.utils import random as br
from bilby.core import prior as bp
from bilby.core.prior import PriorDict, ConditionalPriorDict, Uniform, Constraint
from bilby.bilby_mcmc import proposals as mp
from bilby.bilby_mcmc.chain import Chain, Sample
from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY
from bilby.core.sampler import proposal as jp
from bilby.gw.sampler import proposal as gp

NONE = object()
REG = []     # (name, build, draw, keep): keep: the object may be built long before the draw and used again


def op(name, build, draw, keep=True):
    REG.append((name, build, draw, keep))


PRIORS = dict(
    uniform=lambda: Uniform(0, 1), log_uniform=lambda: bp.LogUniform(1, 5), power=lambda: bp.PowerLaw(2, 1, 5), normal=lambda: bp.Normal(0, 1),
    truncated=lambda: bp.TruncatedNormal(0, 1, -1, 2), half=lambda: bp.HalfNormal(1), lognormal=lambda: bp.LogNormal(0, 1), exponential=lambda: bp.Exponential(1),
    student=lambda: bp.StudentT(5), beta=lambda: bp.Beta(2, 3), logistic=lambda: bp.Logistic(0, 1), cauchy=lambda: bp.Cauchy(0, 1), gamma=lambda: bp.Gamma(2, 1),
    chisq=lambda: bp.ChiSquared(3), sine=lambda: bp.Sine(), cosine=lambda: bp.Cosine(), symlog=lambda: bp.SymmetricLogUniform(1, 2),
    triangular=lambda: bp.Triangular(0.3, 0, 1), fermi=lambda: bp.FermiDirac(1, mu=5), categorical=lambda: bp.Categorical(1000000),
    slab=lambda: bp.SlabSpikePrior(Uniform(0, 1), 0.5, 0.1), interped=lambda: bp.Interped(np.linspace(0, 1, 20), np.linspace(1, 2, 20)))
for k, v in PRIORS.items():
    op("prior " + k, v, lambda p: [p.sample(), p.sample(7)] + ([] if type(p).__name__ in ("Logistic", "FermiDirac", "SlabSpikePrior") else [p.sample((2, 3))]))


def constraint(p):
    p = dict(p)
    p["c"] = p["x"] + p["y"]
    return p


def cond(reference_params, x):
    return dict(minimum=0, maximum=x)


def mvg():
    d = bp.MultivariateGaussianDist(["x", "y"], nmodes=2, mus=[[0, 1], [2, 3]], covs=[[[1, 0.3], [0.3, 2]], [[1, 0], [0, 1]]], weights=[0.4, 0.6])
    return PriorDict(dict(x=bp.MultivariateGaussian(d, "x"), y=bp.MultivariateGaussian(d, "y"), z=Uniform(0, 1)))


def sample_all(p):
    return [p.sample(), p.sample(5), p.sample_subset(list(p)[:1], 3)]


op("dict", lambda: PriorDict(dict(x=Uniform(0, 1), y=bp.Normal(0, 1), z=bp.Sine())), sample_all)
op("constrained", lambda: PriorDict(dict(x=Uniform(0, 1), y=Uniform(0, 1), c=Constraint(0.5, 1.5)), conversion_function=constraint), sample_all)
op("conditional", lambda: ConditionalPriorDict(dict(x=Uniform(0, 1), y=bp.ConditionalUniform(cond, minimum=0, maximum=1), z=Uniform(2, 3))), sample_all)
op("joint", mvg, lambda p: [p.sample(), p.sample(5)])
op("bbh", lambda: bilby.gw.prior.BBHPriorDict(), lambda p: [p.sample(), p.sample(3)])
op("bns", lambda: bilby.gw.prior.BNSPriorDict(aligned_spin=True), lambda p: [p.sample(), p.sample(3)])
op("aligned spin", lambda: bilby.gw.prior.AlignedSpin(Uniform(0, 1), Uniform(-1, 1)), lambda p: [p.sample(), p.sample(4)])
op("calibration prior", lambda: bilby.gw.prior.CalibrationPriorDict.constant_uncertainty_spline(0.1, 0.1, 20, 100, 4, "H1"), lambda p: [p.sample(), p.sample(2)])


def healpix():
    import healpy
    fn = os.path.join(tempfile.gettempdir(), "map_%d.fits" % os.getpid())
    n = healpy.nside2npix(8)
    m = np.arange(1, n + 1, dtype=float)
    if not os.path.exists(fn):
        healpy.write_map(fn, [m / m.sum(), np.full(n, 500.0), np.full(n, 30.0), np.full(n, 1e-5)], column_names=["PROB", "DISTMU", "DISTSIGMA", "DISTNORM"], overwrite=True)
    d = bilby.gw.prior.HealPixMapPriorDist(fn, names=["ra", "dec"], distance=False)
    return PriorDict(dict(ra=bilby.gw.prior.HealPixPrior(dist=d, name="ra"), dec=bilby.gw.prior.HealPixPrior(dist=d, name="dec")))


op("sky map", healpix, lambda p: [p.sample(), p.sample(3)])
op("white noise", lambda: None, lambda _: [bilby.core.utils.create_white_noise(64, 2)[0]])
op("psd noise", lambda: bilby.gw.detector.PowerSpectralDensity.from_aligo(), lambda p: [p.get_noise_realisation(64, 2)[0]])


def ifo():
    return bilby.gw.detector.InterferometerList(["H1", "L1"])


op("network noise", ifo, lambda i: (i.set_strain_data_from_power_spectral_densities(64, 2, 0), [x.frequency_domain_strain for x in i])[1])
op("single noise", lambda: ifo()[0], lambda i: (i.set_strain_data_from_power_spectral_density(64, 2, 0), [i.frequency_domain_strain])[1])


def fake(wg):
    ifos = ifo()
    ifos.set_strain_data_from_power_spectral_densities(128, 1, 0)
    ifos.inject_signal(parameters=INJ, waveform_generator=wg, raise_error=False)
    return [x.frequency_domain_strain for x in ifos]


INJ = dict(ra=1.0, dec=0.5, psi=0.2, geocent_time=0.5, a=1e-21)


def wave(frequency_array, a, **kw):
    return dict(plus=a * np.ones(len(frequency_array), complex), cross=0 * frequency_array * 1j)


op("injection", lambda: bilby.gw.WaveformGenerator(duration=1, sampling_frequency=128, frequency_domain_source_model=wave), fake)
op("seeds", lambda: None, lambda _: [[s.generate_state(4) for s in br.generate_seeds(3)]])
op("binary love", lambda: None, lambda _: list(bilby.gw.conversion.binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(np.array([500.0, 300.0]), np.array([0.9, 0.8]))))


class Like(bilby.Likelihood):
    def __init__(self):
        super().__init__(dict(x=0.0, y=0.0))

    def log_likelihood(self):
        return -0.5 * (self.parameters["x"] ** 2 + self.parameters["y"] ** 2) * 4

    def __repr__(self):
        return "Like()"


def result(sampler="dynesty", n=40, label="a"):
    rs = np.random.RandomState(3)
    df = pd.DataFrame(dict(x=rs.rand(n), y=rs.rand(n), log_likelihood=rs.rand(n), log_prior=rs.rand(n)))
    return bilby.core.result.Result(label=label, sampler=sampler, priors=PriorDict(dict(x=Uniform(0, 1), y=Uniform(0, 1))), search_parameter_keys=["x", "y"], posterior=df,
                                    nested_samples=df.assign(weights=1.0 / n), log_evidence=0.0 if label == "a" else -0.7, log_noise_evidence=-1.0)


def combined(shuffle):
    def f(_):
        r = bilby.core.result.ResultList([result(), result(label="b")]).combine(shuffle=shuffle)
        return [r.posterior["x"].values, r.posterior["y"].values]
    return f


op("combine", lambda: None, combined(False))
op("combine shuffled", lambda: None, combined(True))
op("rejection", lambda: None, lambda _: [bilby.core.result.rejection_sample(np.arange(4000.0), np.arange(4000.0))])
op("rejection mcmc", lambda: None, lambda _: [bilby.bilby_mcmc.sampler.rejection_sample(np.arange(4000.0), np.arange(4000.0))] if hasattr(bilby.bilby_mcmc.sampler, "rejection_sample") else [br.rng.uniform()])


def flat():
    n = 60
    rs = np.random.RandomState(3)
    cm, q = 20 + 10 * rs.rand(n), 0.3 + 0.7 * rs.rand(n)
    m1, m2 = bilby.gw.conversion.chirp_mass_and_mass_ratio_to_component_masses(cm, q)
    df = pd.DataFrame(dict(chirp_mass=cm, mass_ratio=q, mass_1=m1, mass_2=m2))
    pri = PriorDict(dict(chirp_mass=Uniform(10, 40, "chirp_mass"), mass_ratio=Uniform(0.1, 1, "mass_ratio"), mass_1=Constraint(1, 100, "mass_1"), mass_2=Constraint(1, 100, "mass_2")))
    return bilby.core.result.Result(label="a", priors=pri, search_parameter_keys=["chirp_mass", "mass_ratio"], posterior=df)


op("flat in component mass", flat, lambda r: [bilby.gw.prior.convert_to_flat_in_component_mass_prior(r, 0.5).posterior.values.ravel()], False)


def hyper():
    rs = np.random.RandomState(1)
    post = [pd.DataFrame(dict(x=rs.rand(50), y=rs.rand(50), prior=np.ones(50))) for _ in range(3)]
    return [q for q in [bilby.hyper.likelihood.HyperparameterLikelihood(post, hyper_prior=bilby.hyper.model.Model([popm]), max_samples=20)]]


def popm(x, mu):
    return np.exp(-(x - mu) ** 2)


op("hyper samples", lambda: None, lambda _: [np.asarray(hyper()[0].data["x"])])

KEYS = ["x", "y"]


def mpri():
    return PriorDict(dict(x=Uniform(-5, 5, "x"), y=Uniform(-5, 5, "y")))


def chain(n=300):
    rs = np.random.RandomState(7)
    c = Chain(Sample({"x": 0.1, "y": 0.2, LOGLKEY: 0.0, LOGPKEY: 0.0}))
    for i in range(n):
        c.append(Sample({"x": rs.normal(), "y": rs.normal(), LOGLKEY: 0.0, LOGPKEY: 0.0}))
    return c


def use(p, times=6):
    c = chain()
    out = []
    for _ in range(times):
        s, f = p(c, likelihood=Like(), priors=mpri())
        out.append([s["x"], s["y"], float(f)])
    return out


def density(cls):
    def f():
        p = cls(mpri(), first_fit=1, fit_multiplier=1, nsamples_for_density=100)
        p.next_refit_time = 1
        return p
    return f


for k, v in dict(fixed=lambda: mp.FixedGaussianProposal(mpri()), adaptive=lambda: mp.AdaptiveGaussianProposal(mpri()), de=lambda: mp.DifferentialEvolutionProposal(mpri()),
                 uniform=lambda: mp.UniformProposal(mpri()), prior=lambda: mp.PriorProposal(mpri()), jump=lambda: mp.FixedJumpProposal(mpri()),
                 stretch=lambda: mp.StretchProposal(mpri()), fisher=lambda: mp.FisherMatrixProposal(mpri()), kde=density(mp.KDEProposal), gmm=density(mp.GMMProposal),
                 cycle=lambda: mp.get_proposal_cycle("default_noGMnoKD", mpri(), L1steps=1)).items():
    if k == "cycle":
        op("proposal cycle", v, lambda c: [use(c.get_proposal(), 1) for _ in range(12)], False)
    else:
        op("proposal " + k, v, use, False)
op("proposal ensemble", lambda: mp.EnsembleStretch(mpri()), lambda p: [[(lambda s, f: [s["x"], s["y"], float(f)])(*p(chain(), [chain(200), chain(100)])) for _ in range(5)]], False)


def gwp():
    return PriorDict({k: Uniform(0, np.pi if k == "psi" else 2 * np.pi, k, boundary="periodic") for k in ("psi", "phase")})


def gw_use(p):
    c = Chain(Sample({"psi": 0.1, "phase": 0.2, LOGLKEY: 0.0, LOGPKEY: 0.0}))
    return [[(lambda s, f: [s["psi"], s["phase"]])(*p(c, likelihood=None, priors=None)) for _ in range(80)]]


for k in ("CorrelatedPolarisationPhaseJump", "PhaseReversalProposal", "PolarisationReversalProposal", "PhasePolarisationReversalProposal"):
    op("proposal " + k, lambda k=k: getattr(mp, k)(gwp()), gw_use, False)

COORD = [jp.Sample(dict(x=0.1 * i, y=0.3 * i * i)) for i in range(12)]


def jump(j):
    out = []
    for _ in range(4):
        s = j(sample=jp.Sample(dict(x=0.5, y=0.7)), coordinates=[jp.Sample(dict(c)) for c in COORD])
        out.append([s["x"], s["y"]])
    return out


for k, v in dict(norm=lambda: jp.NormJump(0.1, mpri()), walk=lambda: jp.EnsembleWalk(priors=mpri()), stretch=lambda: jp.EnsembleStretch(priors=mpri()),
                 de=lambda: jp.DifferentialEvolution(priors=mpri()), flat=lambda: jp.DrawFlatPrior(priors=mpri())).items():
    op("jump " + k, v, jump)
op("jump eigen", lambda: jp.EnsembleEigenVector(priors=mpri()), jump, False)
op("jump cycle", lambda: None, lambda _: [jump(jp.JumpProposalCycle([jp.NormJump(0.1, mpri()), jp.EnsembleWalk(priors=mpri())], [1, 2], cycle_length=10))], False)


def sky():
    return PriorDict({k: Uniform(-10, 10, k, boundary="periodic") for k in ("ra", "dec", "psi", "phase")})


def skyjump(j):
    out = []
    for _ in range(3):
        s = j(jp.Sample(dict(ra=1.0, dec=0.3, psi=0.5, phase=0.7)))
        out.append([s["ra"], s["dec"], s["psi"], s["phase"]])
    return out


op("known: gw jump sky", lambda: gp.SkyLocationWanderJump(sky()), skyjump)
op("known: gw jump phase", lambda: gp.CorrelatedPolarisationPhaseJump(sky()), skyjump)


def sampler():
    from bilby.core.sampler.fake_sampler import FakeSampler
    return FakeSampler(Like(), mpri(), outdir=tempfile.gettempdir(), label="s", use_ratio=False, plot=False, skip_import_verification=True, sample_file=None)


def initial(_):
    from bilby.core.sampler.emcee import Emcee
    s = Emcee(Like(), mpri(), outdir=tempfile.gettempdir(), label="s%d" % os.getpid(), use_ratio=False, plot=False, skip_import_verification=True, nwalkers=8, iterations=10, resume=False)
    return [np.concatenate([np.ravel(q) for q in s.get_initial_points_from_prior(4)]), s.get_random_draw_from_prior()]


op("initial points", lambda: None, initial)
op("fisher", lambda: None, lambda _: [bilby.core.fisher.FisherMatrixPosteriorEstimator(Like(), mpri()).sample_array(dict(x=0.1, y=0.2), n=3).values.ravel()
                                      if hasattr(bilby.core.fisher.FisherMatrixPosteriorEstimator(Like(), mpri()).sample_array(dict(x=0.1, y=0.2), n=3), "values")
                                      else np.ravel(bilby.core.fisher.FisherMatrixPosteriorEstimator(Like(), mpri()).sample_array(dict(x=0.1, y=0.2), n=3))])


def mcmc(_):
    from bilby.core.sampler import base_sampler
    from bilby.bilby_mcmc.sampler import BilbyPTMCMCSampler
    from bilby.bilby_mcmc.utils import ConvergenceInputs, ParallelTemperingInputs
    base_sampler._initialize_global_variables(Like(), mpri(), KEYS, False)
    ci = ConvergenceInputs(autocorr_c=5, burn_in_nact=1, thin_by_nact=1, fixed_discard=0, target_nsamples=100, stop_after_convergence=False, L1steps=3, L2steps=1, min_tau=1, fixed_tau=None, tau_window=None)
    pi = ParallelTemperingInputs(ntemps=2, nensemble=1, Tmax=5, Tmax_from_SNR=None, initial_betas=None, adapt=True, adapt_t0=10, adapt_nu=10, pt_ensemble=False)
    s = BilbyPTMCMCSampler(convergence_inputs=ci, pt_inputs=pi, proposal_cycle="default_noGMnoKD", pt_rejection_sample=False, pool=None, use_ratio=False,
                           evidence_method="stepping_stone", initial_sample_method="prior", initial_sample_dict=None)
    for _ in range(8):
        s.step_all_chains()
    return [x.chain.get_1d_array(k)[:9] for x in s.sampler_list for k in KEYS]


op("mcmc steps", lambda: None, mcmc)


def phase(l):
    l.parameters.update(INJ, phase=0.0)
    return [l.generate_phase_sample_from_marginalized_likelihood(), l.generate_phase_sample_from_marginalized_likelihood()]


def phase_likelihood():
    ifos = ifo()
    state = br.Generator.rng
    br.seed(99)
    ifos.set_strain_data_from_power_spectral_densities(128, 1, 0)
    br.Generator.rng = state
    pri = PriorDict(dict(phase=Uniform(0, 2 * np.pi, "phase", boundary="periodic")))
    return bilby.gw.GravitationalWaveTransient(ifos, bilby.gw.WaveformGenerator(duration=1, sampling_frequency=128, frequency_domain_source_model=wave), priors=pri, phase_marginalization=True)


op("phase reconstruction", phase_likelihood, phase)


def digest(v):
    h = hashlib.sha256()

    def put(x):
        if isinstance(x, dict):
            for k in sorted(x):
                h.update(str(k).encode())
                put(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                put(y)
        elif isinstance(x, pd.DataFrame):
            put({c: x[c].values for c in x})
        else:
            h.update(np.ascontiguousarray(np.asarray(x)).tobytes())
    put(v)
    return h.hexdigest()[:16]


def main():
    job = json.load(open(sys.argv[1]))
    if job.get("list"):
        json.dump([r[0] for r in REG], open(sys.argv[2], "w"))
        return
    kept = {}
    if job["keep"]:
        for name, build, draw, keep in REG:
            if keep:
                try:
                    kept[name] = build()
                except Exception:
                    pass     # reported by the draw
    out = []
    base = job["base"]
    sys.stdout = open(os.devnull, "w")
    for b in job["behaviours"]:
        row = []
        for h in b:
            if h["do"] == "seed":
                br.seed(base + h["x"])
                row.append("")
            elif h["do"] == "noise":
                np.random.seed(None)
                pyrandom.seed()
                np.random.rand(h["x"])
                row.append("")
            else:
                name, build, draw, keep = REG[h["x"] - 1]
                try:
                    obj = kept[name] if name in kept else build()
                    row.append(digest(draw(obj)))
                except Exception as e:
                    import traceback
                    row.append("error " + "".join(traceback.format_exception(e))[-1500:])
        out.append(row)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
