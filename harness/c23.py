"""C23: detector networks stay consistent and injections add up."""
import os
import shutil
import numpy as np
import lal
from scipy.signal.windows import tukey
import vlib
from vlib import THOROUGH

bilby = vlib.bilby_quiet()
from bilby.gw.detector import InterferometerList, Interferometer, TriangularInterferometer, PowerSpectralDensity, get_empty_interferometer
from bilby.gw.waveform_generator import WaveformGenerator
from bilby.core.utils import random as brandom
T0 = 1126259460
SETTINGS = [dict(dur=4, fs=128, st=0), dict(dur=4, fs=128, st=5), dict(dur=4, fs=128, st=500000), dict(dur=8, fs=128, st=0)]
MASS = dict(heavy=(60.0, 60.0), mid=(30.0, 30.0), light=(1.4, 1.4))
F = np.linspace(0, 64, 129)
NAMES = dict(a="H1", b="L1", c="V1", d="ET1", e="ET2", f="ET3")
ORDER = "abcdef"


def psd_values(k):
    return (1.0 + 0.5 * k) * (1 + F / 64.0)


def fresh():
    objs = {k: get_empty_interferometer(NAMES[k]) for k in "abc"}
    et = get_empty_interferometer("ET")
    for k, ifo in zip("def", et):
        objs[k] = ifo
    for n, k in enumerate(ORDER):
        objs[k].power_spectral_density = PowerSpectralDensity(frequency_array=F, psd_array=psd_values(n))
        objs[k].minimum_frequency = 20
        objs[k].maximum_frequency = 60
        objs[k].strain_data.roll_off = 0.25
    return objs, et


def params(i, m, k):
    r = np.random.RandomState(300 + i)
    p = dict(ra=r.uniform(0, 6), dec=r.uniform(-1.5, 1.5), psi=r.uniform(0, 3), geocent_time=T0 + r.uniform(0.5, 3.5), sid=i,
             luminosity_distance=100.0, a_1=0.0, a_2=0.0, tilt_1=0.0, tilt_2=0.0, phi_12=0.0, phi_jl=0.0, theta_jn=0.3, phase=0.1)
    if m in MASS:
        p["mass_1"], p["mass_2"] = MASS[m]
    return p


def pols(i, n):
    r = np.random.RandomState(700 + i)
    modes = ["plus", "cross"] if i % 3 else ["plus", "cross", "breathing"]
    return {k: 1e1 * (r.randn(n) + 1j * r.randn(n)) for k in modes}


def model(frequency_array, sid, **kw):
    return pols(int(sid), len(frequency_array))


def project(ifo, p, pol, f, start):
    """the signal as the detector sees it, from the detector's tensor and place alone"""
    t = lal.LIGOTimeGPS(p["geocent_time"])
    gmst = lal.GreenwichMeanSiderealTime(t)
    D = np.array(ifo.geometry.detector_tensor)
    resp = lal.ComputeDetAMResponse(np.float32(D), p["ra"], p["dec"], p["psi"], gmst)
    extra = lal.ComputeDetAMResponseExtraModes(np.float32(D), p["ra"], p["dec"], p["psi"], gmst)
    fac = dict(plus=resp[0], cross=resp[1], breathing=extra[2])
    dt = lal.TimeDelayFromEarthCenter(np.array(ifo.geometry.vertex), p["ra"], p["dec"], t) + (p["geocent_time"] - start)
    return sum(fac[m] * pol[m] for m in pol) * np.exp(-2j * np.pi * f * dt)


class Model:
    """numbers behind the specification's state of one detector"""

    def __init__(self, n):
        self.n = n
        self.psd = psd_values(n)
        self.base = None
        self.signals = {}
        self.meta = {}

    def reset(self, st, base, wf):
        self.f = np.arange(st["dur"] * st["fs"] // 2 + 1) / st["dur"]
        self.base, self.wf, self.dur = base, wf, st["dur"]
        self.S = np.interp(self.f, F, self.psd) * wf
        self.signals = {}

    def strain(self, sig, lo):
        d = np.zeros(len(self.f), complex)
        edge = lo
        for s in reversed(sig):
            edge = max(edge, s["lo"])
            d = d + np.where(self.f >= edge, self.signals[s["id"]], 0)
        d = d + np.where(self.f >= edge, self.base, 0)
        return np.where(self.f <= 60, d, 0)


def noise(n, st):
    nb = st["dur"] * st["fs"] // 2 + 1
    norm = 0.5 * st["dur"] ** 0.5
    re, im = brandom.rng.normal(0, norm, (2, nb))
    w = re + 1j * im
    w[0] = w[-1] = 0
    return w * np.interp(np.arange(nb) / st["dur"], F, psd_values(n)) ** 0.5


def close(a, b, tol=2e-5):
    return np.shape(a) == np.shape(b) and np.max(np.abs(a - b), initial=0) <= tol * (1 + np.max(np.abs(b), initial=0))


def replay(b):
    objs, et = fresh()
    mod = {k: Model(n) for n, k in enumerate(ORDER)}
    lst = InterferometerList([])
    prev = None
    kept = []
    for k, h in enumerate(b["hist"]):
        op, s = h["op"], h["s"]
        w = "step %d (%s) of %s: " % (k, op, [x["op"] for x in b["hist"]])
        arg = [objs[x] for x in h["l"]]
        failed = None
        try:
            if op == "build":
                if h["l"] == ["d", "e", "f"] and all(x is y for x, y in zip(arg, et)):
                    arg = [et]
                elif prev is None or set(prev["set"].values()) == {0}:
                    pass
                lst = InterferometerList((x for x in arg) if h["how"] == "gen" else arg)
            elif op == "append":
                lst.append(arg[0])
            elif op == "insert":
                lst.insert(h["x"], arg[0])
            elif op == "extend":
                lst.extend(x for x in arg)
            elif op == "iadd":
                lst += arg
            elif op == "appendlist":
                if h["l"] == ["d", "e", "f"] and all(x is y for x, y in zip(arg, et)):
                    lst.append(et)
                else:
                    lst.append(InterferometerList(arg))
        except Exception as e:
            failed = e
        if op in ("build", "append", "insert", "extend", "iadd", "appendlist"):
            if (failed is None) != h["ok"]:
                return w + ("a detector that does not fit is accepted" if failed is None else "refused: %r" % failed)
        elif op in ("setone", "setall", "setdets"):
            st = SETTINGS[h["x"] - 1]
            start = T0 + st["st"] * 1e-6
            kw = dict(sampling_frequency=st["fs"], duration=st["dur"], start_time=start)
            which = h["l"] if op == "setone" else list(ORDER) if op == "setdets" else list(prev["list"])
            nb = st["dur"] * st["fs"] // 2 + 1
            brandom.seed(100 + k)
            bases = {}
            for x in which:
                wf = 1.0
                if h["how"] == "zero":
                    base = np.zeros(nb, complex)
                elif h["how"] == "psd":
                    base = noise(mod[x].n, st)
                else:
                    td = np.random.RandomState(50 + k + 7 * mod[x].n).randn(st["dur"] * st["fs"])
                    win = tukey(len(td), alpha=2 * 0.25 / st["dur"])
                    base, wf = np.fft.rfft(td * win) / st["fs"], np.mean(win ** 2)
                    objs[x].strain_data.set_from_time_domain_strain(td, **kw)
                bases[x] = (base, wf)
            brandom.seed(100 + k)
            if h["how"] != "td":
                if op == "setall":
                    getattr(lst, "set_strain_data_from_zero_noise" if h["how"] == "zero" else "set_strain_data_from_power_spectral_densities")(**kw)
                else:
                    for x in which:
                        getattr(objs[x], "set_strain_data_from_zero_noise" if h["how"] == "zero" else "set_strain_data_from_power_spectral_density")(**kw)
            for x in which:
                mod[x].reset(st, *bases[x])
        elif op == "band":
            arg[0].minimum_frequency = h["x"]
        elif op in ("all", "one"):
            which = list(prev["list"]) if op == "all" else h["l"]
            p = params(h["id"], h["m"], k)
            st = SETTINGS[s["set"][which[0]] - 1]
            pol = pols(h["id"], st["dur"] * st["fs"] // 2 + 1)
            before = {m: v.copy() for m, v in pol.items()}
            keep = dict(p)
            kw = dict(injection_polarizations=pol) if h["how"] == "pol" else dict(waveform_generator=WaveformGenerator(
                duration=st["dur"], sampling_frequency=st["fs"], frequency_domain_source_model=model,
                parameter_conversion=lambda q: (q, [])))
            if k % 2 or not h["x"]:
                kw["raise_error"] = bool(h["x"])
            try:
                out = (lst if op == "all" else objs[which[0]]).inject_signal(parameters=p, **kw)
                if not h["ok"]:
                    return w + "a signal that does not fit is injected"
            except (ValueError, AttributeError) as e:
                if h["ok"]:
                    return w + "injection refused: %r" % e
                out = None
            if p != keep or any(not np.array_equal(before[m], pol[m]) for m in pol):
                return w + "injecting changes the caller's parameters or polarizations"
            if out is not None:
                outs = out if op == "all" else [out]
                if len(outs) != len(which) or any(set(o) != set(pol) or any(not np.array_equal(o[m], pol[m]) for m in pol) for o in outs):
                    return w + "returned polarizations are not those injected"
                for x in which:
                    m = mod[x]
                    start = T0 + SETTINGS[s["set"][x] - 1]["st"] * 1e-6
                    band = (m.f >= s["band"][x]) & (m.f <= 60)
                    sig = np.where(band, project(objs[x], keep, pol, m.f, start), 0)
                    m.signals[h["id"]] = sig
                    data = m.strain(s["sig"][x], s["band"][x])
                    rho2 = 4 / m.dur * np.sum(np.abs(sig[band]) ** 2 / m.S[band])
                    mf = 4 / m.dur * np.sum(np.conj(sig[band]) * data[band] / m.S[band]) / rho2 ** 0.5
                    m.meta[h["id"]] = (rho2 ** 0.5, mf, keep)
                p["ra"] = -99.0     # the caller reuses his dictionary
        elif op == "reload":
            d = vlib.newdir("net_")
            try:
                if h["how"] == "list":
                    lst.to_pickle(outdir=d, label="nn")
                    fn = os.path.join(d, "nn_" + "".join(i.name for i in lst) + ".pkl")
                    if os.listdir(d) != [os.path.basename(fn)]:
                        return w + "files %s" % os.listdir(d)
                    new = InterferometerList.from_pickle(fn)
                    if len(new) != len(lst) or any(x.name != y.name for x, y in zip(new, lst)):
                        return w + "the list read back is another one"
                    for x, ifo in zip(prev["list"] if prev else [], new):
                        objs[x] = ifo
                    lst = new
                elif h["how"] == "single":
                    for x in ORDER:
                        sub = os.path.join(d, "deep", "er")
                        label = None if x in "ace" else "lab" + x
                        objs[x].to_pickle(outdir=sub, label=label)
                        fn = os.path.join(sub, (label or objs[x].name) + ".pkl")
                        if not os.path.exists(fn):
                            return w + "no pickled detector in the directory given"
                        new = Interferometer.from_pickle(fn)
                        if new.name != objs[x].name or new.meta_data.keys() != objs[x].meta_data.keys():
                            return w + "detector read back is another one"
                        objs2 = {x: new}
                        bad = look(objs2, mod, s, [x], w + "read back: ")
                        if bad:
                            return bad
                else:
                    for x in ORDER:
                        if s["set"][x]:
                            objs[x].save_data(d, label=None if x in "abc" else "u")
                            nm = os.path.join(d, objs[x].name + ("" if x in "abc" else "_u"))
                            q = np.loadtxt(nm + "_frequency_domain_data.dat")
                            a = np.loadtxt(nm + "_asd.dat")
                            m = mod[x]
                            if not (close(q[:, 0], m.f) and close(q[:, 1] + 1j * q[:, 2], m.strain(s["sig"][x], s["band"][x])) and close(a[:, 0], m.f) and close(a[:, 1], m.S ** 0.5)):
                                return w + "saved text data are not the data"
            finally:
                shutil.rmtree(d)
        if len(lst) != len(s["list"]) or any(x is not objs[y] for x, y in zip(lst, s["list"])):
            return w + "list %s, specification %s" % ([x.name for x in lst], [NAMES[y] for y in s["list"]])
        if lst.number_of_interferometers != len(s["list"]) or (len(lst) and list(lst.meta_data) != [NAMES[x] for x in s["list"]]):
            return w + "number or meta data of the list"
        bad = look(objs, mod, s, ORDER, w)
        if bad:
            return bad
        prev = s


def look(objs, mod, s, which, w):
    for x in which:
        ifo, m = objs[x], mod[x]
        if not s["set"][x]:
            continue
        st = SETTINGS[s["set"][x] - 1]
        if ifo.duration != st["dur"] or ifo.sampling_frequency != st["fs"] or ifo.start_time != T0 + st["st"] * 1e-6:
            return w + "settings of the data of %s" % ifo.name
        want = m.strain(s["sig"][x], s["band"][x])
        if not close(ifo.frequency_domain_strain, want):
            return w + "data of %s are not noise plus signals %s, off by %.2g" % (ifo.name, s["sig"][x], np.max(np.abs(ifo.frequency_domain_strain - want)))
        if not close(ifo.power_spectral_density_array, m.S, 1e-9):
            return w + "power spectral density of %s" % ifo.name
        if not close(ifo.whitened_frequency_domain_strain, want / np.sqrt(m.S * m.dur / 4)):
            return w + "whitened data of %s" % ifo.name
        last = s["last"][x]
        if (last == 0) != ("optimal_SNR" not in ifo.meta_data):
            return w + "recorded injections of %s" % ifo.name
        if last:
            a, b, p = m.meta[last]
            if not (close(ifo.meta_data["optimal_SNR"], a) and close(ifo.meta_data["matched_filter_SNR"], b)):
                return w + "recorded SNR of %s %s %s, should be %s %s" % (ifo.name, ifo.meta_data["optimal_SNR"], ifo.meta_data["matched_filter_SNR"], a, b)
            if ifo.meta_data["parameters"] != p:
                return w + "recorded parameters of %s are not those injected" % ifo.name


def geometry(chk):
    """the detectors are where lal has them"""
    for name, pre in (("H1", "LHO_4k"), ("L1", "LLO_4k"), ("V1", "VIRGO"), ("K1", "KAGRA"), ("GEO600", "GEO_600"), ("A1", "LIO_4k")):
        ifo = get_empty_interferometer(name)
        d = [x for x in lal.CachedDetectors if x.frDetector.name == pre][0]
        if np.max(np.abs(ifo.geometry.detector_tensor - d.response)) > 2e-3 or np.max(np.abs(ifo.geometry.vertex - d.location)) > 200:
            chk.violation("geometry of %s: %s, %s" % (name, np.max(np.abs(ifo.geometry.detector_tensor - d.response)), np.max(np.abs(ifo.geometry.vertex - d.location))), dict(name=name))
        chk.count("geometry", cases=1)


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]


def run(chk):
    inv = ["Agreeing", "Untouched", "Once", "NoDouble", "Emit"]
    geometry(chk)
    c = dict(Settings=SETTINGS, Group=("d", "e", "f"), Bands={10, 20})
    r = chk.tlc("short", "Network", constants=dict(c, Dets={"a", "b"}, Masses={"mid"}, Settings=SETTINGS[:3], K=3, MaxSig=2), invariants=inv)
    for b in r.emitted:
        for h in b["hist"]:
            for n in ("set", "band", "sig", "last"):
                h["s"][n] = dict(dict.fromkeys(ORDER, [] if n == "sig" else 20 if n == "band" else 0), **h["s"][n])
    chk.replay_all("short", pick(r.emitted, 8000 if THOROUGH else 500), replay)
    r = chk.tlc("histories", "Network", spec="SimSpec", constants=dict(c, Dets=set(ORDER), Masses={"heavy", "mid", "light", "none"}, K=16, MaxSig=8),
                invariants=inv, simulate=3000 if THOROUGH else 250, depth=18)
    chk.replay_all("histories", r.emitted, replay)
