"""C22: strain data views stay coherent."""
import copy
import pickle
import numpy as np
from scipy.signal.windows import tukey
import vlib
from vlib import THOROUGH

bilby = vlib.bilby_quiet()
from gwpy.timeseries import TimeSeries
from bilby.gw.detector import InterferometerStrainData, PowerSpectralDensity
from bilby.gw.detector.strain_data import NotchList
from bilby.core.utils import random as brandom
PSD = PowerSpectralDensity(frequency_array=np.linspace(0, 16, 65), psd_array=1.0 + np.linspace(0, 1, 65))


def series(i, n):
    return np.random.RandomState(1000 + i).randn(n)


def spectrum(i, n):
    r = np.random.RandomState(5000 + i)
    x = r.randn(n) + 1j * r.randn(n)
    x[0] = x[0].real
    x[-1] = x[-1].real
    return x


def noise(i, s):
    """the noise realisation the generator gives for seed i"""
    brandom.seed(i)
    n = s[0] * s[1] // 2 + 1
    norm = 0.5 * s[0] ** 0.5
    re, im = brandom.rng.normal(0, norm, (2, n))
    w = re + 1j * im
    w[0] = w[-1] = 0
    f = np.linspace(0, s[1] / 2, n)
    return w * np.interp(f, np.linspace(0, 16, 65), 1.0 + np.linspace(0, 1, 65)) ** 0.5


def evaluate(v):
    """frequency and time domain data before masking, from the layers"""
    fd = td = None
    for la in v["lay"]:
        op, i = la["op"], la["id"]
        if op in ("td", "gwpy"):
            td = series(i, v["ns"])
        elif op == "window":
            w = tukey(v["ns"], alpha=2 * (i / 8) / v["dur"])
            fd = np.fft.rfft(td * w) / v["fs"]
        elif op == "fd":
            fd = spectrum(i, v["nb"])
        elif op == "zero":
            fd = np.zeros(v["nb"], complex)
        elif op == "psd":
            fd = noise(i, (v["dur"], v["fs"]))
        elif op == "mask":
            fd = fd * np.array(la["m"])
        elif op == "add":
            fd = fd + spectrum(i, v["nb"])
    return fd, td


def arrays(s, st):
    n = s[0] * s[1]
    return st + np.arange(n) / s[1], np.arange(n // 2 + 1) / s[0]


def check(d, v, rd, w):
    if v["kind"] == "none":
        for name in ("time_domain_strain", "frequency_domain_strain"):
            try:
                getattr(d, name)
            except ValueError:
                continue
            return w + "%s exists although no data are set" % name
        if d.minimum_frequency != v["lo"] / 2 or d.maximum_frequency != (v["hi"] / 2 if v["hi"] < 99 else np.inf):
            return w + "band %s-%s" % (d.minimum_frequency, d.maximum_frequency)
        return
    fd, td = evaluate(v)
    mask = np.array(v["mask"])
    wf = 1.0 if v["w"] < 0 else np.mean(tukey(v["ns"], alpha=2 * (v["w"] / 8) / v["dur"]) ** 2)
    want_fd = fd * mask
    want_td = td if v["kind"] == "td" else np.fft.irfft(want_fd) * v["fs"]
    t, f = arrays((v["dur"], v["fs"]), v["start"])

    def same(a, b):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-11)
    todo = dict(
        arr=lambda: (same(d.time_array, t) and same(d.frequency_array, f) and d.duration == v["dur"]
                     and d.sampling_frequency == v["fs"] and abs(d.start_time - v["start"]) < 1e-6) or "times, frequencies, duration",
        w=lambda: same(d.window_factor, wf) or "window factor %s instead of %s" % (d.window_factor, wf),
        mask=lambda: np.array_equal(d.frequency_mask, mask) or "mask %s instead of %s" % (d.frequency_mask, mask),
        td=lambda: same(d.time_domain_strain, want_td) or "time domain strain",
        fd=lambda: same(d.frequency_domain_strain, want_fd) or "frequency domain strain",
        lo=lambda: (d.minimum_frequency == v["lo"] / 2 and d.maximum_frequency == v["hi"] / 2 and d.roll_off == v["roll"] / 8
                    and np.isclose(d.alpha, 2 * v["roll"] / 8 / v["dur"])
                    and all(d.time_within_data(d.start_time + x) == ok for x, ok in [(-0.1, False), (0, True), (v["dur"], True), (v["dur"] + 0.1, False)])) or "band or roll-off",
    )
    if rd == "all":
        # another order every time
        names = sorted(todo)
        k = (v["lo"] + v["hi"] + len(v["lay"]) * 3 + v["roll"]) % len(names)
        names = names[k:] + names[:k]
    else:
        names = [n for n in todo if n == rd]
    for n in names:
        r = todo[n]()
        if r is not True and not (isinstance(r, np.bool_) and r):
            return w + "%s not those of the data set" % r


def notches(x):
    return [(a / 2, b / 2) for a, b in x]


def replay(b):
    d = InterferometerStrainData(minimum_frequency=0, maximum_frequency=np.inf, roll_off=1 / 8)
    for k, h in enumerate(b["hist"]):
        op, i, s, st = h["op"], h["id"], h["s"], h["st"]
        w = "step %d (%s) of %s: " % (k, op, [(x["op"], x["rd"]) for x in b["hist"]])
        t, f = arrays(s, st)
        kw = dict(sampling_frequency=s[1], duration=s[0], start_time=st)
        if op == "td":
            d.set_from_time_domain_strain(series(i, len(t)), **(dict(time_array=t) if h["x"] == "array" else kw))
        elif op == "fd":
            d.set_from_frequency_domain_strain(spectrum(i, len(f)), **(dict(frequency_array=f, start_time=st) if h["x"] == "array" else kw))
        elif op == "gwpy":
            d.set_from_gwpy_timeseries(TimeSeries(series(i, len(t)), sample_rate=s[1], t0=st, channel="X1:C%d" % i))
        elif op == "zero":
            d.set_from_zero_noise(**kw)
        elif op == "psd":
            brandom.seed(i)
            d.set_from_power_spectral_density(PSD, **kw)
        elif op in ("badtd", "badfd"):
            try:
                if op == "badtd":
                    d.set_from_time_domain_strain(series(i, len(t) - 2), **(dict(time_array=t) if h["x"] == "array" else kw))
                else:
                    d.set_from_frequency_domain_strain(spectrum(i, len(f) - 1), **(dict(frequency_array=f, start_time=st) if h["x"] == "array" else kw))
                return w + "data of another length are accepted"
            except ValueError:
                pass
        elif op == "put":
            d.frequency_domain_strain = spectrum(i, h["v"]["nb"])
        elif op == "add":
            d.frequency_domain_strain += spectrum(i, h["v"]["nb"])
        elif op == "lo":
            d.minimum_frequency = h["x"] / 2
        elif op == "hi":
            d.maximum_frequency = h["x"] / 2 if h["x"] < 99 else np.inf
        elif op == "notch":
            n = notches(h["y"])
            d.notch_list = None if not n else n if k % 2 else NotchList(n)
        elif op == "roll":
            d.roll_off = h["x"] / 8
        elif op == "mask":
            d.frequency_mask = np.array(h["y"])
        elif op == "start":
            d.start_time = h["x"]
        elif op == "copy":
            c = copy.deepcopy(d) if k % 2 else pickle.loads(pickle.dumps(d))
            d.set_from_zero_noise(4, 4, 77)
            d.minimum_frequency = 1
            d.notch_list = [(0.1, 1.9)]
            d.frequency_mask
            d = c
        rd = h["rd"] if k + 1 < len(b["hist"]) else "all"
        bad = check(d, h["v"], rd, w)
        if bad:
            return bad
        if rd == "all" and h["v"]["kind"] == "td":
            lay = [x for x in h["v"]["lay"] if x["op"] in ("td", "gwpy")][-1]
            ch = d.channel
            if (lay["op"] == "gwpy" and str(ch) != "X1:C%d" % lay["id"]) or (lay["op"] == "td" and ch is not None):
                return w + "channel %s of other data" % ch
    if h["v"]["kind"] != "none":
        v = h["v"]
        fd, td = evaluate(v)
        fd = fd * np.array(v["mask"])
        td = td if v["kind"] == "td" else np.fft.irfft(fd) * v["fs"]
        ts, fs, lt, lf = d.to_gwpy_timeseries(), d.to_gwpy_frequencyseries(), d.to_lal_timeseries(), d.to_lal_frequencyseries()
        if not (np.allclose(ts.value, td) and np.allclose(lt.data.data, td) and np.allclose(fs.value, fd) and np.allclose(lf.data.data, fd)
                and abs(ts.t0.value - v["start"]) < 1e-6 and ts.sample_rate.value == v["fs"] and abs(float(lt.epoch) - v["start"]) < 1e-6 and lf.epoch == lt.epoch
                and np.isclose(lt.deltaT, 1 / v["fs"]) and np.isclose(lf.deltaF, 1 / v["dur"]) and np.allclose(fs.frequencies.value, np.arange(v["nb"]) / v["dur"])):
            return w + "exported series do not hold the data"
        if d != copy.deepcopy(d):
            return w + "a copy is not equal"


def psd_segment(chk):
    """the PSD is made from the data around the analysis segment"""
    for n, (t0, dur, seg, L) in enumerate([(0, 16, 4, 4), (100, 32, 110, 4), (-8, 16, -4, 4), (1000, 16, 2000, 4), (10, 16, None, 4), (50, 16, 50, 4)]):
        fs = 16
        x = series(n, dur * fs)
        d = InterferometerStrainData(roll_off=0.5)
        d.set_from_time_domain_strain(x, sampling_frequency=fs, duration=dur, start_time=t0)
        f, p = d.create_power_spectral_density(fft_length=L, analysis_segment_start_time=seg)
        t = t0 + np.arange(dur * fs) / fs
        keep = x
        if seg is not None and t[0] < seg and seg + L < t[-1]:
            keep = x[(t < seg) | (t > seg + L)]
        q = TimeSeries(keep, sample_rate=fs).psd(fftlength=L, overlap=0, window=("tukey", 2 * 0.5 / L))
        if not (np.allclose(p, q.value) and np.allclose(f, q.frequencies.value)):
            chk.violation("PSD of data from %s s, segment at %s: not that of the data around the segment" % (t0, seg), dict(case=n))
        chk.count("psd", cases=1)


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]


def run(chk):
    inv = ["MaskFits", "HiLegal", "WindowRight", "Fresh", "Emit"]
    small = dict(Samplings={(1, 8), (2, 8)}, Starts={7}, Los={3}, His={5}, Notches={frozenset({(3, 6)})}, Rolls={3})
    r = chk.tlc("pairs", "StrainData", constants=dict(small, K=2), invariants=inv)
    chk.replay_all("pairs", r.emitted, replay)
    small["Samplings"] = {(1, 8)} if not THOROUGH else small["Samplings"]
    r = chk.tlc("triples", "StrainData", constants=dict(small, K=3), invariants=inv)
    chk.replay_all("triples", pick(r.emitted, 30000 if THOROUGH else 4000), replay)
    big = dict(Samplings={(1, 8), (2, 8), (1, 16), (2, 16)}, Starts={0, 7, 50}, Los={0, 3, 4}, His={5, 8, 16, 99},
               Notches={frozenset(), frozenset({(3, 6)}), frozenset({(1, 3), (4, 9)})}, Rolls={1, 3, 4, 0})
    r = chk.tlc("histories", "StrainData", spec="SimSpec", constants=dict(big, K=12), invariants=inv,
                simulate=6000 if THOROUGH else 500, depth=14)
    chk.replay_all("histories", r.emitted, replay)
    psd_segment(chk)
