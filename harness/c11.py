"""C11: constraints remove exactly the excluded region."""
import collections
import math
import numpy as np
import vlib
from vlib import close, THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core import prior as bp
from bilby.core.utils import random as brandom

TRACES = []
OB = 0.0


def conversion(p):
    out = dict(p)
    if "a" in p and "b" in p:
        out["s"] = out["a"] + out["b"]
        out["d"] = out["b"] - out["a"]
    return out


def shift(reference_params, a):
    return dict(minimum=reference_params["minimum"] + a, maximum=reference_params["maximum"] + a)


def make(o, extra):
    cls = bp.ConditionalPriorDict if o["cond"] else bp.PriorDict
    d = cls(conversion_function=conversion)
    put(d, o, "s")
    put(d, o, "a")
    if extra:
        d["z"] = 3.0
        d["z"] = bp.DeltaFunction(3.0)
    put(d, o, "b")
    put(d, o, "d")
    return d


def put(d, o, key):
    if key == "a":
        d["a"] = bp.Uniform(0, float(o["wa"]))
    elif key == "b":
        d["b"] = (bp.ConditionalUniform(shift, minimum=0, maximum=float(o["wb"])) if o["cond"]
                  else bp.Uniform(0, float(o["wb"])))
    else:
        c = o["cons"][key]
        if c:
            d[key] = bp.Constraint(minimum=float(c[0]), maximum=float(c[1]))
        elif key in d:
            del d[key]


def triangle(a, b, o):
    if o["cond"]:
        b = b - a
    i, j = math.floor(a), math.floor(b)
    if not (0 <= i < o["wa"] and 0 <= j < o["wb"]):
        return None
    x, y = a - i, b - j
    if y < x:
        t = 1 if y < 1 - x else 4
    else:
        t = 3 if y < 1 - x else 2
    return (i, j, t)


def record(o, samples, asked, complete):
    a, b = np.asarray(samples["a"]).flatten(), np.asarray(samples["b"]).flatten()
    cnt, outside = collections.Counter(), 0
    for x, y in zip(a, b):
        t = triangle(float(x), float(y), o)
        if t is None:
            outside += 1
        else:
            cnt[t] += 1
    TRACES.append(dict(wa=o["wa"], wb=o["wb"], cond=o["cond"], cons=o["cons"], outside=outside, n=len(a), asked=asked,
                       complete=complete, events=[list(t) + [n] for t, n in sorted(cnt.items())]))


class Counting(bilby.core.likelihood.Likelihood):
    def __init__(self):
        super().__init__(dict(a=None, b=None))
        self.calls = []

    def log_likelihood(self):
        self.calls.append(dict(self.parameters))
        return -2.0 - self.parameters["a"] - 10 * self.parameters["b"]

    def noise_log_likelihood(self):
        return 0.0


def observe(d, o, extra, normalized, deep):
    fixed = ["z"] if extra else []
    names = [c for c in ("s", "d") if o["cons"][c]]
    if sorted(d.constraint_keys) != sorted(names) or sorted(d.non_fixed_keys) != ["a", "b"] or d.fixed_keys != fixed:
        return "constraint/free/fixed keys %s %s %s" % (d.constraint_keys, d.non_fixed_keys, d.fixed_keys)
    dens = 4.0 / o["count"]                       # normalised density over the allowed region
    flat = 1.0 / (o["wa"] * o["wb"])
    pts = [dict(a=p["a"] / 6, b=p["b"] / 6) for p in o["points"]]
    ok = [p["ok"] for p in o["points"]]
    for p, k in zip(pts, ok):
        if bool(d.evaluate_constraints(dict(p))) != k:
            return "evaluate_constraints(%s) is %s, specification %s" % (p, not k, k)
        got = d.ln_prob(dict(p), normalized=False)
        if not (close(got, math.log(flat)) if k else got == -np.inf):
            return "unnormalised ln_prob(%s) = %s, allowed %s, flat density %s" % (p, got, k, flat)
    arr = {n: np.array([p[n] for p in pts]) for n in "ab"}
    got = d.ln_prob(dict(arr), axis=0, normalized=False)
    if not close(got, [math.log(flat) if k else -np.inf for k in ok]):
        return "unnormalised ln_prob of an array: %s, allowed %s" % (got, ok)
    # together with points outside of the support, whose constraint may be satisfied or not
    far = [dict(a=-0.25, b=0.25), dict(a=o["wa"] + 0.25, b=0.5), dict(a=0.5, b=o["wb"] + o["wa"] + 0.25)]
    mix = {n: np.array([p[n] for p in far[:1] + pts + far[1:]]) for n in "ab"}
    okm = [False] + ok + [False, False]
    got = d.ln_prob(dict(mix), axis=0, normalized=False)
    if not close(got, [math.log(flat) if k else -np.inf for k in okm]):
        return "unnormalised ln_prob of an array with points outside of the support: %s, allowed %s" % (got, okm)
    if normalized:
        got, lgot = d.prob(dict(mix), axis=0), d.ln_prob(dict(mix), axis=0)
        if not close(got, [dens if k else 0 for k in okm], rtol=0.03, atol=0):
            return "prob of an array with points outside of the support: %s, allowed %s, density %s" % (got, okm, dens)
        if not close(np.exp(lgot), got, rtol=1e-6):
            return "ln_prob of an array with points outside of the support is not the logarithm of prob: %s" % lgot
        near = list(zip(pts, ok))[:: max(1, len(pts) // 12)]
        for p, k in near:
            got, lgot = d.prob(dict(p)), d.ln_prob(dict(p))
            if k:
                if not close(got, dens, rtol=0.03) or not close(lgot, math.log(got), rtol=1e-6):
                    return "prob(%s) = %s, ln_prob %s, specification %s" % (p, got, lgot, dens)
            elif got != 0 or lgot != -np.inf:
                return "prob(%s) = %s, ln_prob %s at an excluded point" % (p, got, lgot)
        got = d.prob(dict(arr), axis=0)
        if not close(got, [dens if k else 0 for k in ok], rtol=0.03, atol=0):
            return "prob of an array: %s, allowed %s, density %s" % (got, ok, dens)
        lgot = d.ln_prob(dict(arr), axis=0)
        if not close(np.exp(lgot), got, rtol=1e-6):
            return "ln_prob of an array is not the logarithm of prob"
        bad = {n: arr[n][~np.array(ok)] for n in "ab"}
        if len(bad["a"]):
            if np.any(d.prob(dict(bad), axis=0) != 0) or np.any(d.ln_prob(dict(bad), axis=0) != -np.inf):
                return "an array of excluded points has non-zero probability"
    # draws
    n = 30 * o["count"] if deep and o["count"] <= 70 else 40
    reqs = [(None, 1), (1, 1), (5, 5), ((2, 3), 6), (n, n)]
    for size, asked in reqs:
        s = d.sample(size)
        if sorted(s) != sorted(["a", "b"] + fixed):
            return "sample() drew the keys %s" % sorted(s)
        if size is not None and any(np.shape(v) != ((size,) if isinstance(size, int) else size) for v in s.values()):
            return "sample(%s) has the shapes %s" % (size, [np.shape(v) for v in s.values()])
        record(o, s, asked, deep and asked == n and n > 40)
    keys = ["b"] + names + ["a"]
    kept = list(keys)
    s = d.sample_subset_constrained(keys, size=7)
    if keys != kept:
        return "sample_subset_constrained changed the list of keys it was given to %s" % keys
    record(o, s, 7, False)
    s = d.sample_subset_constrained_as_array(["b", "a"], size=6)
    record(o, dict(a=s[1], b=s[0]), 6, False)
    # the sampler
    if deep:
        like = Counting()
        from bilby.core.sampler.base_sampler import NestedSampler
        samp = NestedSampler(likelihood=like, priors=d, outdir="o", label="l", skip_import_verification=True)
        order = samp.search_parameter_keys
        if sorted(order) != ["a", "b"]:
            return "search parameters %s" % order
        for p, k in list(zip(pts, ok)):
            like.calls.clear()
            got = samp.log_likelihood([p[x] for x in order])
            if k:
                if not close(got, -2.0 - p["a"] - 10 * p["b"]) or len(like.calls) != 1:
                    return "sampler log likelihood at %s: %s, %d evaluations" % (p, got, len(like.calls))
            elif like.calls or got > -1e300:
                return "sampler log likelihood at the excluded %s: %s, %d evaluations" % (p, got, len(like.calls))


def replay_factory(every, deep_every):
    n = [0]

    def replay(b):
        d = None
        for i, s in enumerate(b):
            o, op = s["obs"], s["op"]
            n[0] += 1
            extra = (b[0]["obs"]["wa"] + b[0]["obs"]["wb"]) % 2 == 0
            if op == "new":
                d = make(o, extra)
            elif op in ("width", "cons"):
                put(d, o, s["key"])
            elif op == "drop":
                d.pop(s["key"]) if n[0] % 2 else d.__delitem__(s["key"])
            elif op == "copy":
                d = d.copy()
            r = observe(d, o, extra, n[0] % every == 0 or len(b) > 2 and n[0] % 2 == 0, n[0] % deep_every == 0)
            if r:
                return "step %d (%s): %s" % (i, op, r)
    return replay


BOUNDS = [("s", 0, 3), ("s", 2, 5), ("s", 1, 2), ("s", -2, 4), ("d", -1, 1), ("d", 0, 9), ("d", -3, -1), ("d", 1, 3)]


def run(chk):
    brandom.seed(vlib.SEED)
    inv = ["Everything", "ClosedForm", "Emit"]
    consts = dict(Widths={2, 3, 5}, Bounds=set(BOUNDS), K=1)
    r = chk.tlc("single", "Constraints", constants=consts, invariants=inv, spec="SpecE")
    chk.replay_all("single", r.emitted, replay_factory(1 if THOROUGH else 3, 4))
    consts = dict(Widths={2, 3, 5}, Bounds=set(BOUNDS), K=5)
    r = chk.tlc("histories", "Constraints", constants=consts, invariants=inv, spec="SimSpecE",
                simulate=600 if THOROUGH else 50, depth=6)
    chk.replay_all("histories", r.emitted, replay_factory(4, 7))
    consts["K"] = 1
    chk.validate("draws", "Constraints", TRACES, constants=consts)
