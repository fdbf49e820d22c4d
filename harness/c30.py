"""C30: joint and hierarchical likelihoods combine their parts exactly."""
import copy
import pickle
import numpy as np
import pandas as pd
import vlib
from vlib import THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core.likelihood import Likelihood, JointLikelihood
from bilby.core.prior import PriorDict, Uniform, PowerLaw
from bilby.hyper.likelihood import HyperparameterLikelihood
from bilby.hyper.model import Model

COEF = [None, dict(p=2), dict(p=1, q=3), dict(r=5), dict(p=7, q=11, r=13), dict(s=17)]
NOISE = [None, 0, 4, 9, -2, 1]
FIRST = [None, dict(p=1), dict(p=2, q=3), dict(r=4), dict(p=5, q=6, r=7), dict(s=8)]


class Linear(Likelihood):
    def __init__(self, m):
        super().__init__(dict(FIRST[m]))
        self.m = m

    def log_likelihood(self):
        return sum(c * self.parameters[k] for k, c in COEF[self.m].items())

    def noise_log_likelihood(self):
        return NOISE[self.m]




def replay_joint(b):
    made = {}

    def member(m):
        made[m] = Linear(m)
        return made[m]
    h0 = b["hist"][0]
    ids = h0["x"]
    given = [member(m) if m not in ids[:i] else made[m] for i, m in enumerate(ids)]
    j = JointLikelihood(*given)
    flat = len(given)  # members which are reached directly
    direct = list(ids)
    for k, h in enumerate(b["hist"]):
        op, x, y, z = h["op"], h["x"], h["y"], h["z"]
        w = "step %d (%s) of %s: " % (k, op, [(q["op"], q["x"], q["y"]) for q in b["hist"]])
        if op == "set":
            j.parameters[x] = y
        elif op == "update":
            j.parameters.update({q: v for q, v in h["par"].items() if q in ("p", "r")})
        elif op == "replace":
            j.parameters = dict(h["par"])
        elif op == "member":
            m = h["ms"][x - 1]
            t = [q for q in leaves(j)][x - 1]
            if t.m != m:
                return w + "member %d is %d" % (x, t.m)
            t.parameters[y] = z
        elif op == "likes":
            new = [member(m) for m in x]
            if y:
                new = JointLikelihood(*new)
            elif k % 2:
                new = tuple(new)
            j.likelihoods = new
        elif op == "wrap":
            m = member(x)
            j = JointLikelihood(m, j) if y else JointLikelihood(j, m)
        elif op == "copy":
            old = j
            j = pickle.loads(pickle.dumps(j)) if k % 2 else copy.deepcopy(j)
            old.parameters.update({q: 99 for q in old.parameters})
            for q in leaves(old):
                q.parameters = {n: 98 for n in COEF[q.m]}
        elif op == "original" and x in made:
            made[x].parameters.update({q: y + 50 for q in made[x].parameters})
        if dict(j.parameters) != h["par"]:
            return w + "parameters %s instead of %s" % (j.parameters, h["par"])
        if j.log_likelihood() != h["total"] or j.noise_log_likelihood() != h["noise"] or j.log_likelihood_ratio() != h["total"] - h["noise"]:
            return w + "log likelihood %s, noise %s instead of %s, %s" % (j.log_likelihood(), j.noise_log_likelihood(), h["total"], h["noise"])
        for q in leaves(j):
            if any(q.parameters[n] != h["par"][n] for n in COEF[q.m]):
                return w + "member %d has the parameters %s instead of %s" % (q.m, q.parameters, h["par"])


def leaves(j):
    for q in j.likelihoods:
        if isinstance(q, JointLikelihood):
            yield from leaves(q)
        else:
            yield q


# ------------------------------------------------------------------ hierarchical


def factor_a(dataset, a):
    return np.exp(-a * dataset["x"] / 4)


def factor_b(data, b):
    return (data["x"] + data["y"]) ** b


def factor_ab(dataset, b, a):
    return 1 + a * dataset["y"] + 10 * b


class Named:
    variable_names = ["b", "a"]

    def __call__(self, data, **kw):
        assert sorted(kw) == ["a", "b"]
        return 2 + kw["a"] - kw["b"] * data["y"] / 50


class Plain:
    def __call__(self, dataset, a):
        return a * np.ones_like(dataset["x"])


def factor_none(dataset):
    return dataset["y"] + 0.5


REF = dict(a=lambda x, y, a, b: np.exp(-a * x / 4), b=lambda x, y, a, b: (x + y) ** b, ab=lambda x, y, a, b: 1 + a * y + 10 * b,
           named=lambda x, y, a, b: 2 + a - b * y / 50, plain=lambda x, y, a, b: a * np.ones_like(x), none=lambda x, y, a, b: y + 0.5)
MAKE = dict(a=lambda: factor_a, b=lambda: factor_b, ab=lambda: factor_ab, named=Named, plain=Plain, none=lambda: factor_none)


def prior_x(x, y):
    return 0.1 + x * 0 + y / 3


def sampling_function(dataset):
    return prior_x(dataset["x"], dataset["y"])


def sampling_x(dataset):
    return dataset["x"] + 0.2


def sampling_y(data):
    return 1 / (1 + data["y"])


PD = PriorDict(dict(x=Uniform(0, 2), y=PowerLaw(alpha=1, minimum=0, maximum=3)))
REFPRIOR = dict(prior=prior_x, log_prior=prior_x, function=prior_x, override=prior_x, model=lambda x, y: (x + 0.2) / (1 + y),
                priordict=lambda x, y: 0.5 * (2 * y / 9))


def replay_hyper(b):
    s = b["hist"][0]["setup"]
    post = []
    for i, size in enumerate(s["sizes"]):
        r = np.random.RandomState(10 * i + size)
        d = pd.DataFrame(dict(x=r.uniform(0.1, 1.9, size), y=r.uniform(0.1, 2.9, size)))
        p = prior_x(d["x"], d["y"])
        if s["form"] in ("prior",):
            d["prior"] = p
        elif s["form"] == "log_prior":
            d["log_prior"] = np.log(p)
        elif s["form"] == "override":
            d["prior"] = 77.0
            d["log_prior"] = 3.0
        post.append(d)
    keep = [d.copy() for d in post]
    sp = dict(prior=None, log_prior=None, function=sampling_function, override=sampling_function,
              model=Model([sampling_x, sampling_y], cache=s["cache"]), priordict=PD)[s["form"]]
    f = [MAKE[q]() for q in s["factors"]]
    model = f[0] if len(f) == 1 and s["cache"] else Model(f, cache=s["cache"])
    ev = [0.5 * i - 3 for i in range(len(post))] if s["ev"] else None
    hl = HyperparameterLikelihood(post, model, sp, log_evidences=ev, max_samples=s["max"] if s["max"] < 100 else 1e100)
    first = None
    for k, h in enumerate(b["hist"]):
        op = h["op"]
        w = "step %d (%s %s) of %s with %s: " % (k, op, h["x"], [(q["op"], q["x"], q["y"]) for q in b["hist"]], s)
        if op == "init":
            hl.parameters.update(a=1, b=2)
        elif op == "set":
            hl.parameters[h["x"]] = h["y"]
        elif op == "replace":
            hl.parameters = dict(h["par"])
        elif op == "resample":
            m = h["x"]
            # max_samples can only decrease by itself
            hl.max_samples = 1e100
            hl.data = hl.resample_posteriors(m)
        elif op == "look":
            hl.max_samples = 1e100
            hl.resample_posteriors(h["x"])
        elif op == "copy":
            old = hl
            hl = copy.deepcopy(hl)
            old.parameters.update(a=55, b=66)
            old.log_likelihood_ratio()
        data = hl.data
        if data["x"].shape != (len(post), h["n"]):
            return w + "%s samples instead of %s of each of %d events" % (data["x"].shape, h["n"], len(post))
        want = 0
        for i, d in enumerate(keep):
            rows = [np.flatnonzero(np.isclose(d["x"].values, v)) for v in data["x"][i]]
            if any(len(r) != 1 for r in rows) or len({int(r[0]) for r in rows}) != len(rows):
                return w + "not a selection of the samples of event %d" % i
            sel = d.iloc[[int(r[0]) for r in rows]]
            x, y = sel["x"].values, sel["y"].values
            if not np.allclose(data["y"][i], y):
                return w + "samples of event %d are mixed up" % i
            p = REFPRIOR[s["form"]](x, y)
            if not np.allclose(data["prior"][i], p):
                return w + "sampling prior %s of event %d instead of %s" % (data["prior"][i], i, p)
            pop = np.prod([REF[q](x, y, h["par"]["a"], h["par"]["b"]) for q in s["factors"]], axis=0)
            with np.errstate(divide="ignore"):
                want += np.log(np.mean(pop / p))
            if not d.equals(post[i]):
                return w + "the samples of the caller are modified"
        want = np.nan_to_num(want)  # a vanishing probability
        got = hl.log_likelihood_ratio()
        if not np.isclose(got, want, rtol=1e-9, atol=1e-9):
            return w + "log likelihood ratio %s instead of %s" % (got, want)
        if ev is not None and not (np.isclose(hl.noise_log_likelihood(), sum(ev)) and (abs(want) > 1e300 or np.isclose(hl.log_likelihood(), want + sum(ev)))):
            return w + "the evidences do not enter as their sum"


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]


def run(chk):
    inv = ["Exact", "Covered", "Emit"]
    r = chk.tlc("joint", "Joint", constants=dict(Vals={21, 34}, K=3), invariants=inv)
    chk.replay_all("joint", r.emitted, replay_joint)
    r = chk.tlc("joint-deeper", "Joint", constants=dict(Vals={21}, K=4), invariants=inv)
    chk.replay_all("joint-deeper", r.emitted if THOROUGH else pick(r.emitted, 8000), replay_joint)
    r = chk.tlc("joint-histories", "Joint", spec="SimSpec", constants=dict(Vals={21, 34, -3, 0}, K=14), invariants=inv,
                simulate=8000 if THOROUGH else 800, depth=16)
    chk.replay_all("joint-histories", r.emitted, replay_joint)
    forms = {"prior", "log_prior", "override", "function", "model", "priordict"}
    facs = {("a",), ("none",), ("a", "b"), ("named", "plain"), ("ab", "b", "none"), ("b", "a", "named"), ("ab",), ("plain", "none", "a", "b")}
    r = chk.tlc("hierarchical", "Hierarchical", constants=dict(Factors={("a",), ("b", "named")}, Forms=forms, Sizes={(4, 5), (3,)}, Vals={1, 3}, K=2),
                invariants=["Bounded", "Emit"])
    chk.replay_all("hierarchical", r.emitted if THOROUGH else pick(r.emitted, 600), replay_hyper)
    r = chk.tlc("hierarchical-histories", "Hierarchical", spec="SimSpec",
                constants=dict(Factors=facs, Forms=forms, Sizes={(4, 5), (3,), (6, 2, 5), (4, 4, 4, 4)}, Vals={0, 1, 2, 3}, K=9),
                invariants=["Bounded", "Emit"], simulate=2500 if THOROUGH else 250, depth=10)
    chk.replay_all("hierarchical-histories", r.emitted, replay_hyper)
