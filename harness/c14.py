"""C14: one-dimensional priors are consistent distributions, also after changes."""
import json
import random

import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.stats

import vlib
from vlib import THOROUGH, SEED, newdir

bilby = vlib.bilby_quiet()
from bilby.core import prior as bp
from bilby.gw import prior as gp

N = 601


def U(c, v, a):
    """The value of an attribute in the units of the class."""
    x = v[a]
    if a in ("lo", "hi", "mode", "loc", "peak"):
        if c in ("sine", "slabsine", "cosine"):
            return x * np.pi / 12
        if c == "massratio":
            return x / 12
        if c == "fresh":
            return {1: 100.0 * x, 2: x / 10, 3: -1 + x / 6, 4: x / 4}[v["kind"]]
        return x / 4
    if a == "alpha" and c in ("powerlaw", "slabpower"):
        return x / 2
    if a == "height":
        return x / 4
    if a in ("mu", "sigma", "scale", "theta", "k", "alpha", "beta"):
        return x / 2
    return x


TABLE = np.linspace(0, 3, N)        # codes 0 to 12
FILE = newdir("tables") + "/t.txt"
np.savetxt(FILE, np.array([TABLE, 1 + (TABLE - 1) ** 2 / 3]).T)


def linear(v):
    return (v["slope"] * TABLE * 4 + v["level"]) / 7.0


def build(c, v):
    g = {a: U(c, v, a) for a in v}
    lo, hi = g.get("lo"), g.get("hi")
    if c == "uniform":
        return bp.Uniform(lo, hi)
    if c == "powerlaw":
        return bp.PowerLaw(g["alpha"], lo, hi)
    if c == "loguniform":
        return bp.LogUniform(lo, hi)
    if c == "symlog":
        return bp.SymmetricLogUniform(lo, hi)
    if c == "chirpmass":
        return gp.UniformInComponentsChirpMass(lo, hi)
    if c == "massratio":
        return gp.UniformInComponentsMassRatio(lo, hi)
    if c == "sine":
        return bp.Sine(lo, hi)
    if c == "cosine":
        return bp.Cosine(lo, hi)
    if c == "gaussian":
        return bp.Gaussian(g["mu"], g["sigma"])
    if c == "truncated":
        return bp.TruncatedGaussian(g["mu"], g["sigma"], lo, hi)
    if c == "half":
        return bp.HalfGaussian(g["sigma"])
    if c == "lognormal":
        return bp.LogNormal(g["mu"], g["sigma"])
    if c == "exponential":
        return bp.Exponential(g["mu"])
    if c == "studentt":
        return bp.StudentT(g["df"], g["mu"], g["scale"])
    if c == "beta":
        return bp.Beta(g["alpha"], g["beta"], lo, hi)
    if c == "logistic":
        return bp.Logistic(g["mu"], g["scale"])
    if c == "cauchy":
        return bp.Cauchy(g["alpha"], g["beta"])
    if c == "gamma":
        return bp.Gamma(g["k"], g["theta"])
    if c == "chisquared":
        return bp.ChiSquared(int(g["nu"]))
    if c == "fermi":
        return bp.FermiDirac(g["sigma"], r=g["r"])
    if c == "triangular":
        return bp.Triangular(g["mode"], lo, hi)
    if c == "linear":
        return bp.Interped(TABLE.copy(), linear(v), minimum=lo, maximum=hi)
    if c == "delta":
        return bp.DeltaFunction(g["peak"])
    if c == "categorical":
        return bp.Categorical(int(g["n"]))
    if c == "fresh":
        k = v["kind"]
        if k == 1:
            return gp.UniformSourceFrame(lo, hi, cosmology="Planck15", name="luminosity_distance")
        if k == 2:
            return gp.UniformComovingVolume(lo, hi, cosmology="Planck15", name="redshift")
        if k == 3:
            return limited(gp.AlignedSpin(), lo, hi)
        return bp.FromFile(FILE) if (v["lo"], v["hi"]) == (0, 12) else bp.FromFile(FILE, minimum=lo, maximum=hi)
    if c.startswith("slab"):
        slab = {"slabuniform": "uniform", "slabpower": "powerlaw", "slabsine": "sine", "slabtruncated": "truncated",
                "slablinear": "linear"}[c]
        w = {a: x for a, x in v.items() if a not in ("loc", "height")}
        return bp.SlabSpikePrior(build(slab, w), g["loc"], g["height"])
    raise vlib.MachineryError("no class %s" % c)


def limited(p, lo, hi):
    p.minimum = lo
    p.maximum = hi
    return p


ATTR = {"lo": "minimum", "hi": "maximum", "loc": "spike_location", "height": "spike_height", "n": "ncategories"}


def assign(p, c, v, a):
    if c == "linear" and a in ("slope", "level"):
        p.yy = linear(v)
        return
    x = U(c, v, a)
    if a in ("nu", "n"):
        x = int(x)
    target = p
    if c.startswith("slab") and a not in ("lo", "hi", "loc", "height"):
        target = p.slab
    setattr(target, ATTR.get(a, a), x)


# ---------------------------------------------------------------- the meaning of the forms
class Oracle:
    """Cumulative probability and density of a form of the specification."""

    def __init__(self, c, v, form):
        self.c, self.form = c, form
        self.tol = 1e-9
        self.atoms = None
        g, a = form["g"], form["args"]

        def real(x, name):
            return {"inf": np.inf, "-inf": -np.inf}.get(x) if isinstance(x, str) else U(c, dict(v, **{name: x}), name)
        self.lo, self.hi = real(form["lo"], "lo"), real(form["hi"], "hi")
        if g == "identity":
            G, d = (lambda x: x), (lambda x: np.ones_like(x))
        elif g == "log":
            G, d = np.log, (lambda x: 1 / x)
        elif g == "power":
            n = a[0] / 2 + 1
            G, d = (lambda x: x ** n / n), (lambda x: x ** (n - 1))
        elif g == "-cos":
            G, d = (lambda x: -np.cos(x)), np.sin
        elif g == "sin":
            G, d = np.sin, np.cos
        elif g == "normal":
            s = scipy.stats.norm(a[0] / 2, a[1] / 2)
            G, d = s.cdf, s.pdf
        elif g == "lognormal":
            s = scipy.stats.norm(a[0] / 2, a[1] / 2)
            G, d = (lambda x: s.cdf(np.log(x))), (lambda x: s.pdf(np.log(x)) / x)
        elif g == "gamma":
            if a[0] == "one":
                s = scipy.stats.expon(scale=a[1] / 2)
            elif a[0] == "half":
                s = scipy.stats.chi2(a[1])
            else:
                s = scipy.stats.gamma(a[0] / 2, scale=a[1] / 2)
            G, d = s.cdf, s.pdf
        elif g == "studentt":
            s = scipy.stats.t(a[0], a[1] / 2, a[2] / 2)
            G, d = s.cdf, s.pdf
        elif g == "beta":
            s = scipy.stats.beta(a[0] / 2, a[1] / 2, a[2] / 4, (a[3] - a[2]) / 4)
            G, d = s.cdf, s.pdf
        elif g == "logistic":
            s = scipy.stats.logistic(a[0] / 2, a[1] / 2)
            G, d = s.cdf, s.pdf
        elif g == "cauchy":
            s = scipy.stats.cauchy(a[0] / 2, a[1] / 2)
            G, d = s.cdf, s.pdf
        elif g == "fermi":
            s, r = a[0] / 2, a[1]

            def G(x):
                y = np.minimum(x / s, 700.0)
                return np.where(np.isinf(x), np.logaddexp(0, r), y - np.logaddexp(0, y - r) + np.logaddexp(0, -r))
            d = lambda x: 1 / s / (1 + np.exp(x / s - r))  # noqa: E731
        elif g == "triangular":
            s = scipy.stats.triang((a[0] - a[1]) / (a[2] - a[1]), a[1] / 4, (a[2] - a[1]) / 4)
            G, d = s.cdf, s.pdf
        elif g == "linear":
            k, l = a
            G, d = (lambda x: 2 * k * x ** 2 + l * x), (lambda x: 4 * k * x + l)
            self.tol = 1e-4
        elif g == "massratio":
            q = np.linspace(self.lo, self.hi, 4001)
            f = scipy.interpolate.CubicSpline(q, (1 + q) ** 0.4 * q ** -1.2)
            F = f.antiderivative()
            G, d = F, (lambda x: (1 + x) ** 0.4 * x ** -1.2)
            self.tol = 1e-6
        elif g == "fresh":
            fresh = build(c, v)
            self.tol = 2e-3 if v["kind"] != 3 else 2e-2
            G, d = fresh.cdf, fresh.prob
            self.lo, self.hi = U(c, v, "lo"), U(c, v, "hi")
        elif g in ("point", "atoms"):
            self.atoms = [U(c, v, "peak")] if g == "point" else list(range(a[0]))
            G = d = None
        else:
            raise vlib.MachineryError("no function %s" % g)
        self.G, self.d = G, d
        self.mirrored = form["mirrored"]
        self.height = form["height"] / 4
        self.loc = U(c, v, "loc") if "loc" in v else None
        if G is not None:
            with np.errstate(all="ignore"):
                self.glo = float(G(np.array(self.lo))) if np.isfinite(self.lo) and not (
                    g == "lognormal") else 0.0
                self.ghi = float(G(np.array(self.hi))) if np.isfinite(self.hi) or g == "fermi" else 1.0

    def cdf(self, x):
        x = np.asarray(x, float)
        if self.atoms is not None:
            n = len(self.atoms)
            if self.c == "delta":
                return (x > self.atoms[0]) * 1.0
            return np.clip(np.floor(x) + 1, 0, n) / n
        with np.errstate(all="ignore"):
            if self.mirrored:
                y = np.clip(np.abs(x), self.lo, self.hi)
                half = (self.G(y) - self.glo) / (self.ghi - self.glo) / 2
                return np.where(x < 0, 0.5 - half, 0.5 + half)
            y = np.clip(x, self.lo, self.hi)
            p = (self.G(y) - self.glo) / (self.ghi - self.glo)
            p = np.where(y <= self.lo, 0.0, p)
        if self.loc is not None:
            p = p * (1 - self.height) + self.height * (x > self.loc)
        return p

    def prob(self, x):
        x = np.asarray(x, float)
        if self.atoms is not None:
            hit = np.isin(x, self.atoms)
            return np.where(hit, np.finfo(float).max if self.c == "delta" else 1 / len(self.atoms), 0.0)
        with np.errstate(all="ignore"):
            y = np.abs(x) if self.mirrored else x
            inside = (y >= self.lo) & (y <= self.hi)
            lo = self.lo if np.isfinite(self.lo) else -1e6
            p = np.where(inside, self.d(np.clip(y, lo, self.hi)) / (self.ghi - self.glo), 0.0)
        if self.mirrored:
            p = p / 2
        if self.loc is not None:
            p = np.where(x == self.loc, np.inf, p * (1 - self.height))
        return p

    def points(self):
        """Inside, at and outside of the bounds."""
        if self.atoms is not None:
            a = np.array(self.atoms, float)
            return np.concatenate([a, [a[0] - 1, a[0] - 0.5, a[-1] + 0.5, a[-1] + 1, 0.5, 0.0]])
        lo = self.lo if np.isfinite(self.lo) else -4.0
        hi = self.hi if np.isfinite(self.hi) else 5.0
        w = hi - lo
        x = lo + w * np.array([0.003, 0.11, 0.31, 0.52, 0.77, 0.93, 0.998])
        out = np.array([lo - 0.4 * w, lo - 0.013 * w, hi + 0.01 * w, hi + 0.7 * w, 0.0, -lo - 0.1, -1.0])
        x = np.concatenate([x, out, [lo, hi]])
        if self.mirrored:
            x = np.concatenate([x, -x])
        if self.loc is not None:
            x = np.concatenate([x, [self.loc]])
        return x


# endpoints where the density is infinite, or defined by its limits
def compared(o, x):
    """Points at which the density has a value."""
    ok = np.ones(x.shape, bool)
    if o.form["g"] in ("beta", "gamma", "lognormal", "power"):
        for b in (o.lo, o.hi):
            ok &= x != b
    if o.form["g"] in ("fresh", "linear", "massratio"):
        for b in (o.lo, o.hi):
            ok &= ~np.isclose(x, b, rtol=1e-9, atol=1e-12)
    return ok


def far(a, b, tol, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    same = (a == b) | (np.abs(a - b) <= tol * np.maximum(scale, np.abs(b)))
    return ~same


QUANTILES = np.array([0.0, 0.004, 0.09, 0.2, 0.25, 0.37, 0.5, 0.61, 0.75, 0.88, 0.97, 0.999, 1.0])


def consistent(p, c, v, form, table):
    o = Oracle(c, v, form)
    x = o.points()
    what = "%s with %s" % (type(p).__name__, v)
    with np.errstate(all="ignore"):
        F, f, l = (np.asarray(fn(x.copy()), float) for fn in (p.cdf, p.prob, p.ln_prob)) if c != "fermi" else (
            None, np.asarray(p.prob(x.copy()), float), np.asarray(p.ln_prob(x.copy()), float))
        if F is not None:
            bad = far(F, o.cdf(x), o.tol)
            if bad.any():
                i = np.argmax(bad)
                return "%s: cdf(%r) is %r instead of %r" % (what, x[i], F[i], o.cdf(x)[i])
        scale = 1.0 if not np.isfinite(o.hi - o.lo) else 1 / max(o.hi - o.lo, 1e-3)
        want = o.prob(x)
        bad = far(f, want, max(o.tol, 1e-9) * (20 if form["g"] == "fresh" else 1), min(scale, 1.0)
                  if form["g"] != "fresh" else scale) & compared(o, x)
        if form["g"] == "fresh" and v["kind"] == 3:
            bad &= np.abs(x) > 0.05
        if bad.any():
            i = np.argmax(bad)
            return "%s: prob(%r) is %r instead of %r" % (what, x[i], f[i], want[i])
        if (f < 0).any() or np.isnan(f).any():
            return "%s: prob is %s at %s" % (what, f, x)
        logs = np.log(f)
        bad = far(l, logs, 1e-9) & ~((f < 1e-290) & (l < -600)) & ~((f > 1e300) & (l > 600))
        if c == "delta":
            bad &= f == 0
        if bad.any():
            i = np.argmax(bad)
            return "%s: ln_prob(%r) is %r instead of %r" % (what, x[i], l[i], logs[i])
        u = QUANTILES
        r = np.asarray(p.rescale(u.copy()), float)
        if r.shape != u.shape or np.isnan(r).any():
            return "%s: rescale gives %s" % (what, r)
        if (np.diff(r) < -1e-9 * np.maximum(1, np.abs(r[1:]))).any():
            return "%s: rescale is not monotone: %s" % (what, r)
        if o.atoms is not None:
            w = np.full(u.shape, o.atoms[0]) if c == "delta" else np.minimum(np.floor(u * len(o.atoms)), len(o.atoms) - 1)
            edge = np.isclose(u * len(o.atoms), np.round(u * len(o.atoms)))
            if (far(r, w, 1e-12) & ~edge).any() or not np.isin(r, o.atoms).all():
                return "%s: rescale(%s) is %s" % (what, u, r)
        else:
            lowest, highest = (-o.hi, o.hi) if o.mirrored else (o.lo, o.hi)
            slack = 1e-7 * max(1, abs(highest) if np.isfinite(highest) else 1)
            if (r < lowest - slack).any() or (r > highest + slack).any():
                return "%s: rescale leaves the support: %s" % (what, r)
            if not np.isfinite(lowest) and r[0] != -np.inf or np.isfinite(lowest) and abs(r[0] - lowest) > 1e-6 * max(
                    1, abs(lowest)) and not spike_at(o, lowest):
                return "%s: rescale(0) is %r" % (what, r[0])
            if not np.isfinite(highest) and o.cdf(r[-1:])[0] < 1 - 1e-9 or np.isfinite(highest) and abs(r[-1] - highest) > 1e-6 * max(
                    1, abs(highest)) and not spike_at(o, highest):
                return "%s: rescale(1) is %r" % (what, r[-1])
            fin = np.isfinite(r)
            back = o.cdf(r[fin])
            if o.loc is not None and o.height > 0:
                below = float(o.cdf(np.array([o.loc]))[0])
                on = (u[fin] > below + 1e-9) & (u[fin] < below + o.height - 1e-9)
                if (r[fin][on] != o.loc).any():
                    return "%s: rescale(%s) is %s, not at the spike" % (what, u[fin][on], r[fin][on])
                near = (u[fin] >= below - 1e-9) & (u[fin] <= below + o.height + 1e-9)
                bad = far(back, u[fin], max(o.tol, 1e-8)) & ~near
            else:
                bad = far(back, u[fin], max(o.tol, 1e-8))
            if bad.any():
                i = np.argmax(bad)
                return "%s: rescale(%r) is %r, where the cumulative probability is %r" % (
                    what, u[fin][i], r[fin][i], back[i])
        # the rational values of the specification
        if table:
            t = np.array([row[0] for row in table], float)
            t = t if c == "categorical" else t / 4
            cw = np.array([row[1][0] / row[1][1] for row in table])
            dw = np.array([row[2][0] / row[2][1] for row in table]) * (1 if c == "categorical" else 4)
            F, f = np.asarray(p.cdf(t.copy()), float), np.asarray(p.prob(t.copy()), float)
            bad = far(F, cw, o.tol)
            if bad.any():
                i = np.argmax(bad)
                return "%s: cdf(%r) is %r instead of %r" % (what, t[i], F[i], cw[i])
            if o.loc is not None:
                dw[t == o.loc] = np.inf
            bad = far(f, dw, o.tol) & (compared(o, t) | (form["g"] == "power"))
            if bad.any():
                i = np.argmax(bad)
                return "%s: prob(%r) is %r instead of %r" % (what, t[i], f[i], dw[i])
    if c == "delta" and not (p.minimum == p.maximum == o.atoms[0]):
        return "%s: the bounds are %r and %r" % (what, p.minimum, p.maximum)
    return None


def spike_at(o, b):
    return o.loc is not None and o.height > 0 and o.loc == b


def ask(p, c, v, form, shot, pick):
    """The same values for arguments of any form."""
    o = Oracle(c, v, form)
    x = o.points()
    fns = ["prob", "ln_prob", "rescale"] + (["cdf"] if c != "fermi" else [])
    what = "%s with %s" % (type(p).__name__, v)
    with np.errstate(all="ignore"):
        if shot == "sample":
            for size in (None, 4, (2, 3)):
                s = np.asarray(p.sample(size))
                if s.shape not in ((), (1,)) if size is None else s.shape != np.zeros(size).shape:
                    return "%s: sample(%r) has the shape %s" % (what, size, s.shape)
                if o.atoms is not None:
                    inside = np.isin(s, o.atoms)
                else:
                    y = np.abs(s) if o.mirrored else s
                    inside = (y >= o.lo * (1 - 1e-9) - 1e-9) & (y <= o.hi + 1e-9 * max(1, abs(o.hi) if np.isfinite(o.hi) else 1))
                if not inside.all():
                    return "%s: the sample %s is outside of its support" % (what, s)
            return None
        for fn in fns:
            arg = QUANTILES.copy() if fn == "rescale" else x.copy()
            full = np.asarray(getattr(p, fn)(arg.copy()), float)
            if shot == "scalar":
                for i in pick.sample(range(len(arg)), 4):
                    if c == "fermi" and fn == "rescale" and arg[i] > 1 - 1e-6:
                        continue  # the difference of large numbers
                    for y in (float(arg[i]), np.float64(arg[i])):
                        got = np.asarray(getattr(p, fn)(y), float)
                        if got.size != 1 or far(got.reshape(-1)[0], full[i], 1e-12) and not np.isnan(full[i]):
                            return "%s: %s(%r) is %r but %r in an array" % (what, fn, y, got, full[i])
            elif shot == "vector":
                k = pick.randrange(1, len(arg))
                got = np.asarray(getattr(p, fn)(arg[:k].copy()), float)
                if got.shape != (k,) or far(got, full[:k], 1e-12).any():
                    return "%s: %s of %s is %s instead of %s" % (what, fn, arg[:k], got, full[:k])
            elif shot == "matrix":
                k = len(arg) // 2
                m = arg[:2 * k].reshape(2, k)
                got = np.asarray(getattr(p, fn)(m.copy()), float)
                if got.shape != m.shape or far(got, full[:2 * k].reshape(2, k), 1e-12).any():
                    return "%s: %s of %s is %s instead of %s" % (what, fn, m, got, full[:2 * k].reshape(2, k))
            elif shot == "empty":
                got = np.asarray(getattr(p, fn)(np.array([])), float)
                if got.shape != (0,):
                    return "%s: %s of nothing is %s" % (what, fn, got)
            elif shot == "integers":
                y = np.array([0, 1]) if fn == "rescale" else np.array([-2, 0, 1, 2, 3])
                got = np.asarray(getattr(p, fn)(y.copy()), float)
                want = np.asarray(getattr(p, fn)(y.astype(float)), float)
                if got.shape != y.shape or far(got, want, 1e-12).any():
                    return "%s: %s of the integers %s is %s instead of %s" % (what, fn, y, got, want)
    return None


def history(h, pick):
    c = h[0]["cls"]
    p = None
    done = []
    try:
        for i, s in enumerate(h):
            v = s["val"]
            done.append("%s %s" % (s["op"], s["attr"]))
            if s["op"] == "make":
                p = build(c, v)
            elif s["op"] == "set":
                assign(p, c, v, s["attr"])
            else:
                r = ask(p, c, v, s["form"], s["attr"], pick)
                if r:
                    return ("after %s: %s" % (", ".join(done), r), "%s:%s" % (c, s["attr"]))
                continue
            if s["op"] == "set" and pick.random() < 0.3 and i + 1 < len(h):
                continue            # not every state is looked at
            r = consistent(p, c, v, s["form"], s["table"])
            if r:
                return ("after %s: %s" % (", ".join(done), r), "%s:%s" % (c, s["attr"]))
    except vlib.MachineryError:
        raise
    except Exception as e:
        import traceback
        if not any("/bilby/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        return ("after %s with %s: %s: %s" % (", ".join(done), h[len(done) - 1]["val"], type(e).__name__, e),
                "%s:raise" % c)
    return None


LIM = dict(lo=[1, 2, 3], hi=[6, 8, 11])
VALUES = {
    "uniform": dict(lo=[-2, 0, 3], hi=[4, 7, 12]),
    "powerlaw": dict(alpha=[-6, -5, -4, -2, -1, 0, 1, 2, 4, 5], lo=[0, 1, 3], hi=[4, 7, 12]),
    "loguniform": LIM, "symlog": LIM,
    "chirpmass": dict(lo=[1, 2, 5], hi=[6, 9, 13]),
    "massratio": dict(lo=[1, 2, 4], hi=[6, 9, 12]),
    "sine": dict(lo=[0, 1, 3, 6], hi=[7, 10, 12]),
    "cosine": dict(lo=[-6, -4, -1, 1], hi=[2, 4, 6]),
    "gaussian": dict(mu=[-3, 0, 2], sigma=[1, 3]),
    "truncated": dict(mu=[-3, 0, 2], sigma=[2, 5], lo=[-6, -3, 1], hi=[3, 6]),
    "half": dict(sigma=[1, 2, 5]),
    "lognormal": dict(mu=[-2, 0, 1], sigma=[1, 2]),
    "exponential": dict(mu=[1, 2, 5]),
    "studentt": dict(df=[1, 3, 8], mu=[-1, 0, 3], scale=[1, 4]),
    "beta": dict(alpha=[1, 2, 3, 6], beta=[1, 2, 5], lo=[-3, 0], hi=[2, 4, 9]),
    "logistic": dict(mu=[-1, 0, 3], scale=[1, 4]),
    "cauchy": dict(alpha=[-2, 0, 3], beta=[1, 4]),
    "gamma": dict(k=[1, 2, 3, 7], theta=[1, 2, 5]),
    "chisquared": dict(nu=[1, 2, 3, 7]),
    "fermi": dict(sigma=[1, 2, 5], r=[1, 3, 10, 40]),
    "triangular": dict(mode=[0, 2, 4, 8, 12], lo=[0, 2, 4], hi=[8, 10, 12]),
    "linear": dict(slope=[-1, 0, 2], level=[13, 20], lo=[0, 2, 5], hi=[7, 9, 12]),
    "fresh": dict(kind=[1, 2, 3, 4], lo=[0, 1, 3], hi=[8, 12]),
    "delta": dict(peak=[-3, 0, 2, 5]),
    "categorical": dict(n=[1, 2, 3, 5]),
    "slabuniform": dict(lo=[-2, 0, 2], hi=[5, 8, 12], loc=[0, 2, 3, 5], height=[0, 1, 2, 3]),
    "slabpower": dict(alpha=[-4, -2, 1], lo=[1, 2], hi=[5, 8], loc=[1, 2, 3, 5], height=[0, 1, 3]),
    "slabsine": dict(lo=[0, 2], hi=[5, 9, 12], loc=[0, 2, 3, 5], height=[0, 1, 3]),
    "slabtruncated": dict(mu=[0, 2], sigma=[2, 5], lo=[-6, 1], hi=[3, 6], loc=[1, 2, 3], height=[1, 2]),
}
VALUES["fresh"]["lo"] = [1, 3]


def small():
    """Two or three values of every attribute, for all histories."""
    return {c: {a: sorted({x[0], x[len(x) // 2], x[-1]})[:3] if len(v) < 3 else sorted({x[0], x[-1]})
                for a, x in v.items()} for c, v in VALUES.items()}


def tla(values):
    return {c: {a: set(x) for a, x in v.items()} for c, v in values.items()}


def run(chk):
    pick = random.Random(SEED)
    np.random.seed(SEED)
    bilby.core.utils.random.seed(SEED)
    inv = ["Ends", "Monotone", "NonNegative", "Integrates", "Forgetful", "Emit"]
    t = chk.tlc("changes", "Distribution", constants=dict(Classes=set(VALUES), MaxOps=4 if THOROUGH else 3,
                                                         Values=tla(small())), invariants=inv)
    seen = {}
    for h in t.emitted:
        seen.setdefault(h[0]["cls"], []).append(h)
    chosen = []
    for c, hs in sorted(seen.items()):
        chosen += hs if THOROUGH and len(hs) < 2000 else pick.sample(hs, min(len(hs), 400 if THOROUGH else 40))
    if not THOROUGH:
        pick.shuffle(chosen)
    chk.replay_all("changes", chosen, lambda h: history(h, pick), max_seconds=200 if THOROUGH else 15)
    t = chk.tlc("changes-sampled", "Distribution", constants=dict(Classes=set(VALUES), MaxOps=9,
                                                                 Values=tla(VALUES)), spec="SimSpec",
                invariants=inv, simulate=12000 if THOROUGH else 1200, depth=40)
    chk.replay_all("changes-sampled", t.emitted, lambda h: history(h, pick), max_seconds=300 if THOROUGH else 22)
