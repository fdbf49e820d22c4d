"""C24: model evaluations depend only on their inputs."""
import concurrent.futures
import copy
import multiprocessing
import os
import pickle
import numpy as np
import vlib
from vlib import THOROUGH
os.environ["TQDM_DISABLE"] = "1"

bilby = vlib.bilby_quiet()
from bilby.core.utils import random as brandom
from bilby.gw.detector import PowerSpectralDensity, InterferometerList, get_empty_interferometer
from bilby.gw.detector.calibration import CubicSpline
from bilby.gw.likelihood import GravitationalWaveTransient, RelativeBinningGravitationalWaveTransient
from bilby.gw.waveform_generator import WaveformGenerator
from bilby.hyper.model import Model

# ------------------------------------------------------------------ waveform generator


class Refuses(Exception):
    pass


def curve(kind, v, x, a, b, arr, mode, aarr):
    """what source model v of a domain returns"""
    x = np.asarray(x)
    s = a + b * v + mode * 0.25 + np.dot(arr, [1, 2, 3]) + np.dot(aarr, [0.5, 0.25, 0.125])
    if kind == "fd":
        return dict(plus=s * np.exp(-x) * (1 + 0.1j * v), cross=(s + 1) * np.exp(-0.5 * x) * 1j)
    return dict(plus=s * np.cos(x * v), cross=(s - 1) * np.sin(x) + a)


def source(kind, v):
    def model(x, a, b, arr, mode=0, aarr=None):
        if a == 9:
            raise Refuses()
        return curve(kind, v, x, a, b, arr, mode, aarr)

    def model_k(x, a, b, arr, **kw):
        return model(x, a, b, arr, **kw)
    model_k.__name__ = "%s%d" % (kind, v)
    return model_k


MODELS = {(k, v): source(k, v) for k in ("fd", "td") for v in (1, 2)}


def vec(i):
    return np.array([1.0, 2.0, 0.5]) * i + 0.1


def convert0(p):
    return p, []


def convert1(p):
    p = p.copy()
    p["b"] = p["b"] + 1
    return p, []


def fft(x, fs):
    return np.fft.rfft(x) / fs


def ifft(x, fs):
    return np.fft.irfft(x) * fs


def want(o, dom):
    t = o["st"] + np.arange(o["dur"] * o["fs"]) / o["fs"]
    f = np.arange(o["dur"] * o["fs"] // 2 + 1) / o["dur"]
    c = curve(o["m"], o["v"], f if o["m"] == "fd" else t, o["a"], o["b"], vec(o["arr"]), o["mode"], vec(o["aarr"]))
    if o["m"] == dom:
        return c
    return {k: (fft if dom == "fd" else ifft)(c[k], o["fs"]) for k in c}


def replay_generator(b):
    arrs = dict(mode=0, aarr=vec(0))
    own = np.array([0.0, 0, 0])   # the caller's own array, given with the parameters again and again
    n = len(b["hist"]) + sum(h["dur"] for h in b["hist"])

    def given(p, k):
        own[:] = vec(p["arr"])
        arr = own if k % 2 else vec(p["arr"]) if k % 3 else list(vec(p["arr"]))
        d = dict(a=p["a"], b=p["b"], arr=arr, unrelated=5)
        return d if k % 4 else {key: d[key] for key in sorted(d, reverse=True)}
    g = WaveformGenerator(duration=2, sampling_frequency=16, start_time=0, frequency_domain_source_model=MODELS["fd", 1],
                          time_domain_source_model=MODELS["td", 1] if b["hist"][0]["x"] else None,
                          parameter_conversion=convert0, waveform_arguments=arrs)
    last = None
    for k, h in enumerate(b["hist"][1:]):
        op, x = h["op"], h["x"]
        w = "step %d (%s) of %s: " % (k, op, [q["op"] for q in b["hist"][1:]])
        if op in ("eval", "again", "missing"):
            dom = x["dom"] if op == "eval" else x
            call = g.frequency_domain_strain if dom == "fd" else g.time_domain_strain
            p = given(x["p"], k + n) if op == "eval" else dict(a=3, arr=vec(1)) if op == "missing" else None
            before = copy.deepcopy(p)
            try:
                out = call(p) if op != "again" or k % 2 else call()
            except Refuses:
                if op == "missing" or not h["out"]["raise"]:
                    return w + "the source model is given parameters it refuses"
                continue
            except KeyError:
                if op != "missing":
                    raise
                continue
            finally:
                if p is not None and (list(p) != list(before) or any(np.any(p[q] != before[q]) or type(p[q]) is not type(before[q]) for q in p)):
                    return w + "the parameters given by the caller are modified"
            if op == "missing":
                return w + "a value is returned although a parameter is missing"
            if h["out"]["raise"]:
                return w + "a value is returned for refused parameters"
            ref = want(h["out"], dom)
            if set(out) != set(ref) or any(np.shape(out[q]) != np.shape(ref[q]) or not np.allclose(out[q], ref[q], rtol=1e-9, atol=1e-10) for q in ref):
                return w + "the %s strain is not that of the current inputs %s" % (dom, h["out"])
            last = out
        elif op == "setpar":
            p = given(x, k + n)
            p["arr"] = vec(x["arr"])
            before = copy.deepcopy(p)
            g.parameters = p
            if list(p) != list(before) or any(np.any(p[q] != before[q]) for q in p):
                return w + "the parameters given by the caller are modified"
            p["a"] = 77
        elif op == "editpar":
            g.parameters["a"] = x
        elif op == "samp":
            if x["how"] == "fs":
                g.duration = h["dur"]
                g.sampling_frequency = h["fs"]
            elif x["how"] == "freq":
                g.frequency_array = np.arange(h["dur"] * h["fs"] // 2 + 1) / h["dur"]
            else:
                g.time_array = h["st"] + np.arange(h["dur"] * h["fs"]) / h["fs"]
        elif op == "start":
            g.start_time = x
        elif op in ("fd", "td"):
            setattr(g, dict(fd="frequency", td="time")[op] + "_domain_source_model", MODELS[op, x] if x else None)
        elif op == "conv":
            g.parameter_conversion = convert1 if x else convert0
        elif op == "mode":
            g.waveform_arguments["mode"] = x
        elif op == "argarr":
            if x["how"] == "new":
                g.waveform_arguments["aarr"] = vec(x["x"]) if k % 2 else list(vec(x["x"]))
            else:
                g.waveform_arguments["aarr"][:] = vec(x["x"])
        elif op == "args":
            g.waveform_arguments = dict(mode=x["mode"], aarr=vec(x["arr"]))
        elif op == "tamper" and last is not None:
            last["plus"] = 0
            last["extra"] = 1
            last.pop("cross", None)
        elif op == "copy":
            c = copy.deepcopy(g)
            old, g = g, c
            old.waveform_arguments["mode"] = 5
            old.start_time = 11
            try:
                old.frequency_domain_strain(dict(a=1, b=1, arr=vec(2)))
            except Refuses:
                pass
        if not (np.allclose(g.time_array, h["st"] + np.arange(h["dur"] * h["fs"]) / h["fs"])
                and np.allclose(g.frequency_array, np.arange(h["dur"] * h["fs"] // 2 + 1) / h["dur"])):
            return w + "times or frequencies of the generator are not those set"


# ------------------------------------------------------------------ noise curve
GRIDS = [np.linspace(0, 8, 17), np.array([0.0, 1.3, 2.7, 7.9]), np.linspace(1, 12, 23)]
BASE = [None, np.linspace(0, 10, 21), np.linspace(0, 9, 10), np.linspace(0, 10, 21)]


def psd_of(c):
    return 1e-2 * (1 + c * np.cos(BASE[c] / c) ** 2 + BASE[c])


def interp(c, f):
    f = np.asarray(f)
    inside = (f >= BASE[c][0]) & (f <= BASE[c][-1])
    return np.where(inside, np.interp(f, BASE[c], psd_of(c)), np.inf)


def set_curve(p, how, c):
    f, v = BASE[c].copy(), psd_of(c)
    if how in ("psd", "asd"):
        p.frequency_array = f
        if how == "psd":
            p.psd_array = v
        else:
            p.asd_array = v ** 0.5
    else:
        name = os.path.abspath("%s_%d.txt" % (how, c))
        if not os.path.exists(name):
            np.savetxt(name, np.array([f, v if how == "psdfile" else v ** 0.5]).T, fmt="%.18e")
        setattr(p, how.replace("file", "_file"), name)
    return f, v


_empty = []


def replay_psd(b):
    p = PowerSpectralDensity(frequency_array=BASE[1].copy(), psd_array=psd_of(1))
    ifos = []
    if not _empty:
        for name in ("H1", "L1"):
            _empty.append(get_empty_interferometer(name))
            _empty[-1].power_spectral_density = None
    for i in _empty:
        i = copy.deepcopy(i)
        i.power_spectral_density = p
        i.strain_data.set_from_zero_noise(16, 2, 0)
        ifos.append(i)
    mine = None
    last = None
    for k, h in enumerate(b["hist"]):
        op, x, y = h["op"], h["x"], h["y"]
        w = "step %d (%s) of %s: " % (k, op, [q["op"] for q in b["hist"]])
        if op == "set":
            f, v = set_curve(p, y, x)
            v *= 7  # the array given by the caller is not the one which is kept
            if not np.allclose(p.psd_array, psd_of(x)) or not np.allclose(p.asd_array ** 2, psd_of(x)) or not np.allclose(p.frequency_array, BASE[x]):
                return w + "the arrays of the curve are not those set"
        elif op == "refused":
            try:
                setattr(p, y + "_array", np.ones(5))
                return w + "an array of another length is accepted"
            except ValueError:
                pass
        elif op in ("psd", "asd"):
            mine = GRIDS[x].copy() if mine is None or k % 2 or len(mine) != len(GRIDS[x]) else mine
            mine[:] = GRIDS[x]
            last = p.get_power_spectral_density_array(mine) if op == "psd" else p.get_amplitude_spectral_density_array(mine)
            ref = interp(h["out"], GRIDS[x])
            if not np.allclose(last, ref if op == "psd" else ref ** 0.5) or not np.array_equal(mine, GRIDS[x]):
                return w + "not the %s of the current curve at the given frequencies" % op
        elif op == "tamper":
            if y == "grid" and mine is not None:
                mine += 0.25
            elif y == "result" and last is not None:
                last *= 3
        elif op == "read":
            i = ifos[x - 1]
            wf = i.strain_data.window_factor
            ref = interp(h["out"], i.frequency_array)
            if not np.allclose(i.power_spectral_density_array, ref * wf) or not np.allclose(i.amplitude_spectral_density_array, (ref * wf) ** 0.5):
                return w + "not the noise curve of the detector"
            if (h["w"] == 1) != (abs(wf - 1) > 1e-3):
                return w + "window factor %s of other data" % wf
        elif op == "data":
            d = ifos[x - 1].strain_data
            if y == 0:
                d.set_from_zero_noise(16, 2, 0)
            elif y == 1:
                d.roll_off = 0.4
                d.set_from_time_domain_strain(np.random.RandomState(k).randn(32), sampling_frequency=16, duration=2)
                d.frequency_domain_strain
            else:
                d.set_from_zero_noise(8, 4, 3)
        elif op == "own":
            q = PowerSpectralDensity(frequency_array=BASE[x].copy(), psd_array=psd_of(x))
            ifos[1].power_spectral_density = q


# ------------------------------------------------------------------ likelihoods
T0 = 1126259642.0
DUR, FS = 4, 128
FREQ = np.arange(DUR * FS // 2 + 1) / DUR


def chirp(f, m, luminosity_distance, phase, mode, k=0):
    f = np.asarray(f, dtype=float)
    h = np.zeros(len(f), complex)
    ok = (f >= 18) & (f <= 48)
    psi = 2 * np.pi * 0.03 * m * (f[ok] / 20) ** (-5 / 3) - 2 * phase
    h[ok] = 4e-23 / luminosity_distance * (f[ok] / 20) ** (-7 / 6) * (1 + 0.3 * mode) * np.exp(1j * psi)
    return h


def toy(f, m, luminosity_distance, phase, inc, **kw):
    h = chirp(f, m, luminosity_distance, phase, kw.get("mode", 0))
    return dict(plus=h * (1 + np.cos(inc) ** 2) / 2, cross=-1j * h * np.cos(inc))


def toy_rb(f, m, luminosity_distance, phase, inc, fiducial, **kw):
    return toy(f if fiducial == 1 else kw["frequency_bin_edges"], m, luminosity_distance, phase, inc)


POINTS = [None,
          dict(m=30.0, luminosity_distance=1.0, phase=0.3, inc=0.4, ra=1.0, dec=-0.4, psi=0.6, geocent_time=T0 + 2.0, time_jitter=0.0001),
          dict(m=31.0, luminosity_distance=1.4, phase=1.3, inc=1.1, ra=1.2, dec=-0.2, psi=1.6, geocent_time=T0 + 2.01, time_jitter=-0.002),
          dict(m=28.0, luminosity_distance=0.8, phase=2.5, inc=2.4, ra=3.0, dec=0.4, psi=2.6, geocent_time=T0 + 1.98, time_jitter=0.0005)]
for _i, _p in enumerate(POINTS):
    if _p:
        for _n in ("H1", "L1"):
            for _j in range(5):
                _p["recalib_%s_amplitude_%d" % (_n, _j)] = 0.01 * ((_i + _j) % 3)
                _p["recalib_%s_phase_%d" % (_n, _j)] = 0.02 * ((_i * _j) % 3)


def flat(d):
    return d, []


def detectors():
    ifos = InterferometerList(["H1", "L1"])
    for n, i in enumerate(ifos):
        f = np.linspace(0, FS / 2, 65)
        i.power_spectral_density = PowerSpectralDensity(frequency_array=f, psd_array=1e-46 * (1 + (f / 30) ** 2))
        i.minimum_frequency, i.maximum_frequency = 20, 50
        r = np.random.RandomState(n)
        i.calibration_model = CubicSpline("recalib_%s_" % i.name, 20, 50, 5)
        i.strain_data.set_from_frequency_domain_strain(
            1e-23 * (r.randn(len(FREQ)) + 1j * r.randn(len(FREQ))) * 0.7, sampling_frequency=FS, duration=DUR, start_time=T0)
        h = toy(FREQ, **{k: POINTS[1][k] for k in ("m", "luminosity_distance", "phase", "inc")})
        i.strain_data.frequency_domain_strain += i.get_detector_response(h, dict(POINTS[1]))
    return ifos


def priors():
    from bilby.core.prior import Uniform, PowerLaw, PriorDict
    return PriorDict(dict(geocent_time=Uniform(T0 + 1.9, T0 + 2.1), phase=Uniform(0, 2 * np.pi, boundary="periodic"),
                          luminosity_distance=PowerLaw(alpha=2, minimum=0.5, maximum=2)))


KINDS = {1: "", 2: "P", 3: "D", 4: "PD", 5: "T", 6: "TPD", 7: "H1", 8: "C", 9: "RP"}


def build(kind, ifos, gen):
    k = KINDS[kind]
    if k == "H1":
        return GravitationalWaveTransient(ifos, gen, reference_frame=ifos, time_reference="H1"), {}
    kw = dict(phase_marginalization="P" in k, distance_marginalization="D" in k)
    pr = priors()
    if k[:1] == "R":
        g = generator(toy_rb)
        fid = {q: POINTS[1][q] for q in POINTS[1]}
        lk = RelativeBinningGravitationalWaveTransient(ifos, g, fiducial_parameters=fid, priors=pr, epsilon=0.3, **kw)
        return lk, pr
    if k == "C":
        kw.update(calibration_marginalization=True, number_of_response_curves=4,
                  calibration_lookup_table={n: os.path.abspath("cal_%s.h5" % n) for n in ("H1", "L1")})
        for n in ("H1", "L1"):
            for j in range(5):
                pr["recalib_%s_amplitude_%d" % (n, j)] = bilby.core.prior.Gaussian(0, 0.05)
                pr["recalib_%s_phase_%d" % (n, j)] = bilby.core.prior.Gaussian(0, 0.05)
        brandom.seed(8)
    table = os.path.abspath("table_%s.npz" % ("PD" if "P" in k else "D")) if "D" in k else None
    lk = GravitationalWaveTransient(ifos, gen, priors=pr, time_marginalization="T" in k, distance_marginalization_lookup_table=table, **kw)
    return lk, pr


def generator(src=toy):
    return WaveformGenerator(duration=DUR, sampling_frequency=FS, start_time=T0, frequency_domain_source_model=src, parameter_conversion=flat,
                             waveform_arguments=dict(mode=0))


def point(kind, p):
    q = dict(POINTS[p])
    k = KINDS[kind]
    if k == "H1":
        q["H1_time"] = q.pop("geocent_time")
        q["zenith"], q["azimuth"] = 0.3 + 0.2 * q.pop("ra"), 1.0 + q.pop("dec")
    if "P" in k:
        q["phase"] = 0.0
    if "T" in k:
        q["geocent_time"] = T0
    else:
        q.pop("time_jitter")
    if "R" in k:
        q["fiducial"] = 0
    return q


def reference(pr):
    d = pr["luminosity_distance"]
    return float(getattr(d, "peak", d))


def make(kinds, ifos, gen):
    out = {}
    for kind in kinds:
        lk, pr = build(kind, ifos, gen)
        if "D" in KINDS[kind]:
            lk.ref = reference(pr)
        out[kind] = lk
    return out


def set_point(lk, kind, p):
    q = point(kind, p)
    if "D" in KINDS[kind]:
        q["luminosity_distance"] = lk.ref
    return q


_fresh = {}


def ask(lk, op, keys):
    before = {k: lk.parameters[k] for k in keys}
    brandom.seed(4)
    if op == "ratio":
        v = lk.log_likelihood_ratio()
    elif op == "full":
        v = lk.log_likelihood()
    elif op == "reconstruct":
        s = lk.generate_posterior_sample_from_marginalized_likelihood()
        v = [float(s[k]) for k in sorted(keys)] + [float(s[k]) for k in ("recalib_index",) if k in s]
    elif op == "detectors":
        s = lk.compute_per_detector_log_likelihood()
        v = [float(np.real(s["%s_log_likelihood" % n])) for n in ("H1", "L1")]
    elif op == "snrs":
        pol = lk.waveform_generator.frequency_domain_strain(lk.parameters)
        pol = copy.deepcopy(pol)
        lk.parameters.update(lk.get_sky_frame_parameters())
        v = []
        for i in lk.interferometers:
            s = lk.calculate_snrs(pol, i)
            v += [s.d_inner_h.real, s.d_inner_h.imag, float(s.optimal_snr_squared)]
    after = {k: lk.parameters[k] for k in before if k in lk.parameters}
    bad = None
    if after != before:
        bad = "the parameters of the likelihood are changed: %s" % {k: (before[k], after.get(k)) for k in before if after.get(k) != before[k]}
    return np.atleast_1d(v), bad


def fresh(kind, p, mode, op):
    key = kind, p, mode, op
    if key not in _fresh:
        ifos, gen = detectors(), generator()
        lk = make([kind], ifos, gen)[kind]
        gen.waveform_arguments["mode"] = mode
        new = set_point(lk, kind, p)
        lk.parameters.update(new)
        _fresh[key] = ask(lk, op, new)[0]
    return _fresh[key]


def plain(p, mode):
    """log likelihood ratio from its definition"""
    q = POINTS[p]
    out = 0
    for i in detectors():
        h = toy(FREQ, q["m"], q["luminosity_distance"], q["phase"], q["inc"], mode=mode)
        r = i.get_detector_response(h, dict(q))
        sel = (FREQ >= 20) & (FREQ <= 50)
        psd = 1e-46 * (1 + (FREQ / 30) ** 2)
        psd = np.interp(FREQ, np.linspace(0, FS / 2, 65), 1e-46 * (1 + (np.linspace(0, FS / 2, 65) / 30) ** 2))
        d = i.frequency_domain_strain
        out += 4 / DUR * np.sum((np.conj(d) * r / psd)[sel]).real - 2 / DUR * np.sum((abs(r) ** 2 / psd)[sel])
    return out


def replay_likelihood(b):
    kinds = sorted({h["l"] for h in b["hist"]} - {0})
    ifos, gen = detectors(), generator()
    likes = make(kinds, ifos, gen)
    noise = {}
    for k, h in enumerate(b["hist"]):
        op, kind, p = h["op"], h["l"], h["p"]
        w = "step %d (%s of %r) of %s: " % (k, op, KINDS.get(kind), [(x["op"], KINDS.get(x["l"]), x["p"]) for x in b["hist"]])
        if op == "mode":
            gen.waveform_arguments["mode"] = h["mode"]
            continue
        lk = likes[kind]
        if op == "noise":
            if noise.setdefault(kind, lk.noise_log_likelihood()) != lk.noise_log_likelihood():
                return w + "the noise likelihood changes"
            continue
        new = set_point(lk, kind, p)
        if any(lk.parameters.get(q) != new[q] for q in new):
            lk.parameters.update(new)
        v, bad = ask(lk, op, new)
        if bad:
            return w + bad
        ref = fresh(kind, p, h["mode"] if KINDS[kind][:1] != "R" else 0, op)
        if v.shape != ref.shape or not np.allclose(v, ref, rtol=1e-7, atol=1e-7):
            return w + "%s instead of %s as for a new likelihood" % (v, ref)
        if kind == 1 and op == "ratio" and not np.isclose(v[0], plain(p, h["mode"]), rtol=1e-6, atol=1e-6):
            return w + "%s instead of %s by definition" % (v, plain(p, h["mode"]))


# ------------------------------------------------------------------ distance tables
def with_table(phase, table):
    ifos, gen = detectors(), generator()
    pr = priors()
    lk = GravitationalWaveTransient(ifos, gen, priors=pr, phase_marginalization=phase, distance_marginalization=True,
                                    distance_marginalization_lookup_table=table)
    q = point(4, 1)
    q["luminosity_distance"] = reference(pr)
    lk.parameters.update(q)
    return lk.log_likelihood_ratio()


def foreign(what):
    """a table which belongs to another setting"""
    d = np.linspace(0.5, 2, 10000)
    p = priors()["luminosity_distance"]
    t = dict(distance_array=d, prior_array=p.prob(d), reference_distance=p.rescale(0.5), phase_marginalization=True,
             lookup_table=np.zeros((400, 800)))
    if what == "distances":
        t["distance_array"] = np.linspace(0.5, 2.5, 10000)
    elif what == "prior":
        t["prior_array"] = np.ones(10000) / 1.5
    elif what == "phase":
        t["phase_marginalization"] = False
    elif what == "reference":
        t["reference_distance"] = 1.0
    return t


def table_job(job):
    how, what = job
    if how == "own":
        return with_table(what == "PD", os.path.abspath("table_%s.npz" % what))
    if how == "dict":
        return with_table(True, foreign(what))
    name = os.path.abspath("foreign_%s.npz" % what)
    np.savez(name, **foreign(what))
    return with_table(True, name)


def integral(phase):
    """the marginalized likelihood by direct integration over the distance"""
    from scipy.special import ive, logsumexp
    q = POINTS[1]
    dh, hh = 0, 0
    for i in detectors():
        h = toy(FREQ, q["m"], 1.0, 0.0, q["inc"])
        r = i.get_detector_response(h, dict(q))
        sel = (FREQ >= 20) & (FREQ <= 50)
        grid = np.linspace(0, FS / 2, 65)
        psd = np.interp(FREQ, grid, 1e-46 * (1 + (grid / 30) ** 2))
        dh += 4 / DUR * np.sum((np.conj(i.frequency_domain_strain) * r / psd)[sel])
        hh += 4 / DUR * np.sum((abs(r) ** 2 / psd)[sel])
    d = np.linspace(0.5, 2, 20001)
    x = abs(dh) / d if phase else dh.real / d
    ll = (np.log(ive(0, x)) + x if phase else x) - hh / d ** 2 / 2
    w = d ** 2
    return logsumexp(ll, b=w) - logsumexp(0 * d, b=w)


JOBS = [("own", "PD"), ("own", "D"), ("dict", "distances"), ("dict", "prior"), ("file", "phase"), ("file", "reference")]


def tables(chk, values):
    """a likelihood given a table made for other settings has the value of one which makes its own"""
    for (how, what), v in zip(JOBS, values):
        ref = integral(not (how == "own" and what == "D"))
        if not abs(v - ref) < 0.05:
            chk.violation("tables", "distance-marginalized log likelihood %s given %s (%s): %s by integration" % (v, how, what, ref), dict(how=how, what=what))
        chk.count("tables", cases=1)
    for what in ("PD", "D"):
        own = dict(np.load(os.path.abspath("table_%s.npz" % what)))
        v = with_table(what == "PD", own)
        if v != values[JOBS.index(("own", what))]:
            chk.violation("tables", "another value %s with the table of an equal likelihood" % v, dict(what=what))
        chk.count("tables", cases=1)


# ------------------------------------------------------------------ population model
class Factor:
    variable_names = ["b"]

    def __call__(self, data, b):
        return data["x"] ** b


def first(dataset, a):
    return a * dataset["x"] + 1


def replay_population(b):
    data = {1: dict(x=np.array([1.0, 2.0])), 2: dict(x=np.array([3.0, 0.5])), 3: dict(x=np.array([1.0, 2.0, 4.0]))}
    for cache in (True, False):
        m = Model([first, Factor()], cache=cache)
        m.parameters.update(a=1, b=1)
        for k, h in enumerate(b["hist"]):
            if h["op"] == "set":
                m.parameters[h["x"]] = h["y"]
            elif h["op"] == "replace":
                m.parameters = dict(h["par"])
            elif h["op"] == "fail":
                keep = m.parameters.pop("b")
                try:
                    m.prob(data[h["x"]])
                    return "step %d: probability without a parameter" % k
                except KeyError:
                    pass
                m.parameters["b"] = keep
            else:
                v = m.prob(data[h["x"]])
                x = np.array(data[h["x"]]["x"])
                ref = (h["par"]["a"] * x + 1) * x ** h["par"]["b"]
                if np.shape(v) != np.shape(ref) or not np.allclose(v, ref):
                    return "step %d of %s (cache %s): %s instead of %s" % (k, [(q["op"], q["x"]) for q in b["hist"]], cache, v, ref)
                if not (np.array_equal(data[1]["x"], [1, 2]) and np.array_equal(data[2]["x"], [3, 0.5])):
                    return "step %d: the data are modified" % k


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]


def run(chk):
    d = vlib.newdir()
    cwd = os.getcwd()
    os.chdir(d)
    pool = concurrent.futures.ProcessPoolExecutor(len(JOBS), mp_context=multiprocessing.get_context("fork"))
    try:
        jobs = [pool.submit(table_job, j) for j in JOBS]
        inv = ["Same", "SomeModel", "Shows", "Emit"]
        small = dict(Samplings={(2, 16), (1, 16)}, Starts={3}, Vals={1, 2}, Modes={1}, Arrs={0, 1})
        todo = [
            (chk.start("changes", "Evaluations", constants=dict(small, K=4), spec="FocusSpec", invariants=inv), 6000, replay_generator),
            (chk.start("generators", "Evaluations", spec="SimSpec", invariants=inv, simulate=8000 if THOROUGH else 800, depth=18,
                       constants=dict(Samplings={(2, 16), (1, 16), (2, 8), (4, 8)}, Starts={0, 3, -2}, Vals={1, 2, 3}, Modes={0, 1, 2}, Arrs={0, 1, 2}, K=16)), None, replay_generator),
            (chk.start("curves", "NoiseCurve", constants=dict(Curves={1, 2}, Grids={0, 1}, K=3), invariants=["SharedSame", "Emit"]), 3000, replay_psd),
            (chk.start("curve-histories", "NoiseCurve", spec="SimSpec", constants=dict(Curves={1, 2, 3}, Grids={0, 1, 2}, K=14),
                       invariants=["SharedSame", "Emit"], simulate=5000 if THOROUGH else 400, depth=16), None, replay_psd),
            (chk.start("populations", "PopModel", constants=dict(Data={1, 2, 3}, Vals={1, 2}, K=4), invariants=["Emit"]), 6000, replay_population)]
        for name, likes in [("likelihood-frame", {7, 1}), ("likelihood-calibration", {8}), ("likelihood-binned", {9, 2}),
                            ("likelihood-time", {5, 2}), ("likelihood-pairs", {1, 3, 4}), ("likelihood-all", {1, 4, 6})]:
            todo.append((chk.start(name, "LikelihoodEval", spec="SimSpec", constants=dict(Likes=likes, Points={1, 2, 3}, Modes={0, 1}, K=10),
                                   invariants=["Current", "Emit"], simulate=120 if THOROUGH else 12, depth=12), None, replay_likelihood))
        for r, n, fn in todo:
            if r[0] == "likelihood-pairs":
                tables(chk, [j.result() for j in jobs])
            e = chk.done(r).emitted
            chk.replay_all(r[0], e if THOROUGH or not n else pick(e, n), fn)
    finally:
        pool.shutdown(cancel_futures=True)
        os.chdir(cwd)
