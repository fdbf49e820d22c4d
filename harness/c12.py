"""C12: joint priors answer only from one complete request."""
import math
import numpy as np
import vlib
from vlib import close, THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core import prior as bp
from bilby.core.utils import random as brandom


class TestDist(bp.BaseJointPriorDist):
    """The abstract joint distribution of specs/JointPrior.tla"""

    def __init__(self, names, bounds=None):
        super().__init__(names=names, bounds=bounds)
        self.distname = "testdist"
        self.n = 0

    def _sample(self, size, **kwargs):
        self.n += 1
        out = np.zeros((size, len(self)))
        for i in range(len(self)):
            out[:, i] = 1000 * self.n + 10 * np.arange(size) + i + 1
        return out

    def _rescale(self, samp, **kwargs):
        q = np.asarray(samp) * 4
        i = np.arange(1, len(self) + 1)
        return 1000 * i + i * q + q.sum(axis=1)[:, None]

    def _ln_prob(self, samp, lnprob, outbounds):
        i = np.arange(1, len(self) + 1)
        lnprob[~outbounds] = -((2 * i + 1) * samp[~outbounds]).sum(axis=1) - samp[~outbounds, 0] * samp[~outbounds, -1]
        return lnprob


def val(v):
    return float(v[0]) if len(v) == 1 else np.array(v, dtype=float)


def ln(m):
    return [-np.inf if x < 0 else -float(x) for x in m]


def replay_factory(names, bound):
    def replay(b):
        dist = TestDist(list(names), bounds=[(0.0, float(bound))] * len(names))
        pri = [bp.JointPrior(dist, name=n) for n in names]
        for k, s in enumerate(b):
            p = pri[s["i"] - 1]
            where = "step %d %s" % (k, {x: s[x] for x in s if x != "out"})
            if s["op"] == "sample":
                size = s["size"]
                got = p.sample(size=size) if size else p.sample(size=[None, 1][k % 2])
                if not close(np.atleast_1d(got), [float(x) for x in s["out"]]) or (size and np.shape(got) != (size,)):
                    return "%s returned %s, specification %s" % (where, got, s["out"])
            elif s["op"] == "rescale":
                got = p.rescale(s["q"] / 4)
                if not s["full"]:
                    if np.size(got) != 0:
                        return "%s answered %s before the request was complete" % (where, got)
                elif not close(np.atleast_1d(got), s["out"]):
                    return "%s returned %s, specification %s" % (where, got, s["out"])
            else:
                f = p.prob if s["op"] == "prob" else p.ln_prob
                if s["error"]:
                    try:
                        got = f(val(s["v"]))
                    except Exception:
                        continue
                    return "%s: inconsistent numbers of values were answered with %s" % (where, got)
                got = np.atleast_1d(f(val(s["v"])))
                if s["full"]:
                    want = ln(s["out"])
                    if s["op"] == "prob":
                        want = np.exp(want)
                else:
                    want = [1.0 if s["op"] == "prob" else 0.0] * len(s["v"])
                if not close(got, want, rtol=1e-9, atol=0):
                    return "%s returned %s, specification %s" % (where, got, want)
    return replay


def plus(reference_params, p):
    return dict(minimum=reference_params["minimum"] + p, maximum=reference_params["maximum"] + p)


def replay_dict(b):
    o = b[0]
    A = TestDist(["p", "q"], bounds=[(0, 100)] * 2)
    B = TestDist(["r", "s"], bounds=[(0, 100)] * 2)
    make = dict(p=lambda: bp.JointPrior(A, "p"), q=lambda: bp.JointPrior(A, "q"), r=lambda: bp.JointPrior(B, "r"),
                s=lambda: bp.JointPrior(B, "s"), x=lambda: bp.Uniform(10000, 10004))
    cls = bp.PriorDict
    if o["cond"]:
        cls = bp.ConditionalPriorDict
        make["x"] = lambda: bp.ConditionalUniform(plus, minimum=10000, maximum=10004)
    d = cls({k: make[k]() for k in o["order"]})
    ask = o["ask"]
    for rep in range(2):
        got = d.rescale(list(ask), [t / 4 for t in o["th"]])
        if not close(got, o["vals"]):
            return "rescale(%s) = %s, specification %s" % (ask, got, o["vals"])
    pt = {k: float(v) for k, v in zip(ask, o["pt"])}
    for rep in range(2):
        got = d.ln_prob(dict(pt), normalized=False)
        if not close(got, -o["minus"] - math.log(4)):
            return "ln_prob(%s) = %s, specification -%s - ln 4" % (pt, got, o["minus"])
        for k in ask:
            off = dict(pt)
            off[k] = -1.0
            if d.ln_prob(off, normalized=False) != -np.inf:
                return "%s is out of bounds in %s but ln_prob is finite" % (k, off)
    if not close(d.prob(dict(pt)), math.exp(-o["minus"]) / 4, rtol=1e-9, atol=0):
        return "prob(%s) = %s" % (pt, d.prob(dict(pt)))
    # arrays in which the components leave their bounds in different rows
    n = len(ask)
    arr = {k: np.full(n + 2, v) for k, v in pt.items()}
    want = np.full(n + 2, -o["minus"] - math.log(4))
    for i, k in enumerate(ask):
        arr[k][i + 1] = -3.0
        want[i + 1] = -np.inf
    got = d.ln_prob(dict(arr), axis=0, normalized=False)
    if not close(got, want):
        return "ln_prob of arrays %s = %s, specification %s" % (arr, got, want)
    for size in (None, 4, 1):
        na, nb = A.n, B.n
        s = d.sample(size)
        if size == 4 or size is None:
            if (A.n, B.n) != (na + 1, nb + 1):
                return "sample(%s) took %d and %d joint draws" % (size, A.n - na, B.n - nb)
        for dist, names in ((A, ["p", "q"]), (B, ["r", "s"])):
            for i, k in enumerate(names):
                want = 1000 * dist.n + 10 * np.arange(size or 1) + i + 1
                if not close(np.atleast_1d(s[k]), want):
                    return "sample(%s)[%s] = %s, joint draw %s" % (size, k, s[k], want)
        u = np.atleast_1d(s["x"] - (s["p"] if o["cond"] else 0)) - 10000
        if np.any(u < 0) or np.any(u > 4):
            return "x = %s does not belong to p = %s" % (s["x"], s["p"])


def gaussians(chk):
    """Multivariate Gaussians with integer means and covariances: values with exact integer exponents."""
    r = chk.tlc("gaussian", "JointGauss", constants=dict(Coord={-2, -1, 0, 1, 3}), invariants=["PosDef", "Emit"])

    def replay(o):
        o = o[0]
        ms = o["modes"]
        names = ["u", "v"]
        dist = bp.MultivariateGaussianDist(
            names, nmodes=len(ms), mus=[[float(x) for x in m["mu"]] for m in ms],
            covs=[np.array(m["cov"], dtype=float) for m in ms], weights=[float(m["w"]) for m in ms],
            bounds=[(float(a), float(b)) for a, b in o["bounds"]])
        W = sum(m["w"] for m in ms)
        d = bp.PriorDict({n: bp.MultivariateGaussian(dist, name=n) for n in names})
        want = []
        for pt in o["points"]:
            if pt["inside"]:
                t = sum(m["w"] / W * math.exp(-0.5 * q / m["det"]) / (2 * math.pi * math.sqrt(m["det"]))
                        for m, q in zip(ms, pt["quad"]))
            else:
                t = 0.0
            want.append(t)
            x = dict(u=float(pt["x"][0]), v=float(pt["x"][1]))
            if pt["x"][0] % 2:
                x = dict(v=x["v"], u=x["u"])
            got = math.exp(d.ln_prob(x, normalized=False))
            if not close(got, t, rtol=1e-9, atol=1e-300):
                return "prob(%s) = %s, specification %s" % (x, got, t)
        arr = {n: np.array([float(p["x"][i]) for p in o["points"]]) for i, n in enumerate(names)}
        got = np.exp(d.ln_prob(arr, axis=0, normalized=False))
        if not close(got, want, rtol=1e-9, atol=1e-300):
            return "prob of an array = %s, specification %s" % (got, want)
        # rescale: the covariance of the linear map equals the given one
        if len(ms) == 1:
            from scipy.stats import norm
            e = 0.25
            c = norm.ppf(0.5 + e)
            z0 = np.array(d.rescale(names, [0.5, 0.5]))
            m = np.array([np.array(d.rescale(names, [0.5 + e, 0.5])) - z0, np.array(d.rescale(names, [0.5, 0.5 + e])) - z0]) / c
            if not close(z0, ms[0]["mu"]) or not close(m.T @ m, ms[0]["cov"]):
                return "rescale does not map to the given mean and covariance: %s %s" % (z0, m.T @ m)
            swapped = d.rescale(["v", "u"], [0.5 + e, 0.7])
            same = d.rescale(["u", "v"], [0.7, 0.5 + e])
            if not close(swapped, same[::-1]):
                return "rescale in the order v, u gives %s, in the order u, v %s" % (swapped, same)
        s = d.sample(50)
        for n, (a, b) in zip(names, o["bounds"]):
            if s[n].shape != (50,) or np.any(s[n] < a) or np.any(s[n] > b):
                return "samples of %s out of bounds" % n
        a = np.array([s["u"], s["v"]])
        brandom.seed(4)
        x1 = d.sample(3)
        brandom.seed(4)
        x2 = d.sample(3)
        if any(not close(x1[n], x2[n]) for n in names):
            return "same seed, different draws"
    chk.replay_all("gaussian", r.emitted, replay)


def run(chk):
    brandom.seed(vlib.SEED)
    vals = [(3,), (12,), (1, 2), (11, 4), (2, -1)]
    inv = ["NeverComplete", "WholeDraws", "Emit"]

    def consts(names, k, kinds, values):
        return dict(Names=list(names), Sizes={0, 2}, Coords={1, 3}, Values=set(values), Bound=10, Kinds=set(kinds), K=k)
    r = chk.tlc("one-kind", "JointPrior", constants=consts("pq", 4, ["ln_prob"], vals[:4]), invariants=inv)
    chk.replay_all("one-kind", r.emitted, replay_factory("pq", 10))
    r = chk.tlc("mixed", "JointPrior", constants=consts("pq", 4 if THOROUGH else 3, ["sample", "rescale", "ln_prob", "prob"],
                vals[:3]), invariants=inv)
    chk.replay_all("mixed", r.emitted, replay_factory("pq", 10))
    r = chk.tlc("random", "JointPrior", constants=consts("pqt", 20, ["sample", "rescale", "ln_prob", "prob"], vals),
                invariants=inv, spec="SimSpec", simulate=5000 if THOROUGH else 600, depth=21)
    chk.replay_all("random", r.emitted, replay_factory("pqt", 10))
    for cond in (False, True):
        r = chk.tlc("dict-%s" % ("conditional" if cond else "plain"), "JointDict", constants=dict(
            Keys=set("pqrsx"), Conditional=cond, Requests=1, OutOf=7 if THOROUGH else 41), invariants=["KeyDetermines", "Emit"])
        chk.replay_all("dict-%s" % ("conditional" if cond else "plain"), r.emitted, replay_dict)
    gaussians(chk)
