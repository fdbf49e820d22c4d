"""C13: priors which are written are read back as they were."""
import copy
import os
import random
import shutil

import numpy as np

import vlib
from vlib import THOROUGH, SEED, newdir

bilby = vlib.bilby_quiet()
from bilby.core import prior as bp
from bilby.core.prior import PriorDict, ConditionalPriorDict
from bilby.gw import prior as gp
import prior_conditions  # noqa: F401  (prior files refer to it)

OUT = newdir("priors")
XS = np.linspace(0, 1, 7)
YS = 1 + XS / 3
CHARS = dict(letter="a", space=" ", comma=",", open="(", close=")", eq="=", sq="'", dq='"', bs="\\",
             uni="\u2609", hash="#", digit="1", sopen="[", brace="{", dollar="$", cr="r", dot=".")

# every class with the arguments of its own
BOUND, FREE = True, False
CATALOGUE = {
    "Uniform": (lambda v=0, **k: bp.Uniform(0.1, 1 + v / 3, **k), BOUND),
    "Delta": (lambda v=0, **k: bp.DeltaFunction(1.5 + v / 7, **k), FREE),
    "PowerLaw": (lambda v=0, **k: bp.PowerLaw(2.1, 1, 5 + v / 3, **k), BOUND),
    "LogUniform": (lambda v=0, **k: bp.LogUniform(1e-7, 5 + v / 3, **k), BOUND),
    "SymmetricLogUniform": (lambda v=0, **k: bp.SymmetricLogUniform(1e-3, 5 + v / 3, **k), BOUND),
    "Cosine": (lambda v=0, **k: bp.Cosine(minimum=-1 - v / 17, **k), BOUND),
    "Sine": (lambda v=0, **k: bp.Sine(minimum=0.1 + v / 17, **k), BOUND),
    "Gaussian": (lambda v=0, **k: bp.Gaussian(0.1 + v / 3, 2, **k), BOUND),
    "TruncatedGaussian": (lambda v=0, **k: bp.TruncatedGaussian(0, 2 / 3, -1 - v / 3, 1, **k), BOUND),
    "HalfGaussian": (lambda v=0, **k: bp.HalfGaussian(2 + v / 3, **k), BOUND),
    "LogNormal": (lambda v=0, **k: bp.LogNormal(0.3, 2 + v / 3, **k), BOUND),
    "Exponential": (lambda v=0, **k: bp.Exponential(2 + v / 3, **k), BOUND),
    "StudentT": (lambda v=0, **k: bp.StudentT(3, 0.1 + v / 3, 1, **k), BOUND),
    "Beta": (lambda v=0, **k: bp.Beta(2, 3, -1 - v / 3, 4, **k), BOUND),
    "Logistic": (lambda v=0, **k: bp.Logistic(0.1 + v / 3, 1, **k), BOUND),
    "Cauchy": (lambda v=0, **k: bp.Cauchy(0.1 + v / 3, 1, **k), BOUND),
    "Gamma": (lambda v=0, **k: bp.Gamma(2, 1 + v / 3, **k), BOUND),
    "ChiSquared": (lambda v=0, **k: bp.ChiSquared(3 + v, **k), BOUND),
    "FermiDirac": (lambda v=0, **k: bp.FermiDirac(1.1 + v / 3, r=10, **k), FREE),
    "Categorical": (lambda v=0, **k: bp.Categorical(3 + v, **k), BOUND),
    "Triangular": (lambda v=0, **k: bp.Triangular(0.5, -v / 3, 1, **k), FREE),
    "Interped": (lambda v=0, **k: bp.Interped(XS, YS + v * XS, **k), BOUND),
    "WeightedDiscreteValues": (lambda v=0, **k: bp.WeightedDiscreteValues([1, 2.5, 3 + v], [1, 2, 3], **k), BOUND),
    "DiscreteValues": (lambda v=0, **k: bp.DiscreteValues([1, 2.5, 3 + v], **k), BOUND),
    "WeightedCategorical": (lambda v=0, **k: bp.WeightedCategorical(3, [1, 2, 3 + v], **k), BOUND),
    "SlabSpike": (lambda v=0, **k: bp.SlabSpikePrior(bp.Uniform(0, 1 + v / 3, **k), 0.5, 0.3), FREE),
    "Constraint": (lambda v=0, **k: bp.Constraint(0.1, 1 + v / 3, **k), FREE),
    "AlignedSpin": (lambda v=0, **k: gp.AlignedSpin(a_prior=bp.Uniform(0, 0.5), z_prior=bp.Uniform(-1, 1), **k), BOUND),
    "ChirpMass": (lambda v=0, **k: gp.UniformInComponentsChirpMass(5, 50 + v / 3, **k), BOUND),
    "MassRatio": (lambda v=0, **k: gp.UniformInComponentsMassRatio(0.1 + v / 1000, 1, **k), BOUND),
    "ComovingVolume": (lambda v=0, **k: gp.UniformComovingVolume(
        100, 1000, **dict(dict(name="luminosity_distance", cosmology="Planck15"), **k)), BOUND),
    "SourceFrame": (lambda v=0, **k: gp.UniformSourceFrame(
        0.1, 1, **dict(dict(name="redshift", cosmology="WMAP9"), **k)), BOUND),
}
for n in ("WeightedDiscreteValues", "DiscreteValues", "WeightedCategorical"):
    if not hasattr(bp, n):
        del CATALOGUE[n]
PLAIN = [n for n in CATALOGUE if n not in ("SlabSpike", "AlignedSpin", "Interped", "WeightedDiscreteValues",
                                           "DiscreteValues", "WeightedCategorical", "ComovingVolume",
                                           "SourceFrame")]


def points(p):
    lo = p.minimum if np.isfinite(p.minimum) else -3.0
    hi = p.maximum if np.isfinite(p.maximum) else 4.0
    return np.concatenate([lo + (hi - lo) * np.array([0.0, 0.21, 0.5, 0.83, 1.0]), [lo - 0.3, hi + 0.3]])


def value(p, fn, xs):
    try:
        return np.asarray(getattr(p, fn)(xs))
    except (ValueError, NotImplementedError):     # there are priors without cumulative probabilities
        return np.array(-77.0)


def differs(p, q, what=""):
    """What tells the prior q which was read from the prior p which was written."""
    if type(p) is not type(q):
        return "%s is read as %r" % (type(p), q)
    for a in ("name", "latex_label", "unit", "boundary", "minimum", "maximum"):
        x, y = getattr(p, a), getattr(q, a)
        if x != y and not (isinstance(x, float) and np.isnan(x) and np.isnan(y)):
            return "%s: %r is read as %r (%r)" % (a, x, y, q)
    if not p == q:
        return "%r is read as %r, which is not equal" % (p, q)
    if p.is_fixed != q.is_fixed:
        return "whether it is fixed changes"
    if isinstance(p, (bp.Constraint, bp.JointPrior)) or hasattr(p, "condition_func"):
        return None
    xs = points(p)
    with np.errstate(all="ignore"):
        for fn in ("prob", "ln_prob", "cdf"):
            a, b = value(p, fn, xs), value(q, fn, xs)
            if not np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True):
                return "%s of %r changes from %s to %s" % (fn, p, a, b)
        u = np.array([0.03, 0.3, 0.51, 0.97])
        a, b = value(p, "rescale", u), value(q, "rescale", u)
        if not np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True):
            return "rescale of %r changes from %s to %s" % (p, a, b)
    return None


def by(fmt, p, where):
    if fmt == "repr":
        r = repr(p)
        return type(p).from_repr(r[r.index("(") + 1:-1])
    if fmt == "text":
        return PriorDict(dict(k=repr(p)))["k"]
    d = PriorDict(dict(k=p))
    if fmt == "file":
        d.to_file(where, "a")
        return PriorDict(os.path.join(where, "a.prior"))["k"]
    d.to_json(where, "a")
    return PriorDict.from_json(os.path.join(where, "a_prior.json"))["k"]


FORMATS = ["repr", "text", "file", "json"]


def make(name, /, **k):
    f, bound = CATALOGUE[name]
    if not bound:
        k.pop("boundary", None)
    if name in ("ComovingVolume", "SourceFrame"):
        k.pop("name", None)
        k.pop("unit", None)
    return f(**k)


def text_case(b, pick):
    """A string of the specification in the place of the strings of priors."""
    shape, s = b["shape"], "".join(CHARS[c] for c in b["s"])
    k = {}
    kinds = list(shape)
    nstr = kinds.count("str")
    labels = pick.sample(["latex_label", "unit", "name"], min(3, nstr)) if nstr else []
    for l in labels:
        k[l] = s
    if "none" in kinds and "name" not in k:
        k["name"] = None
    if pick.random() < 0.2:
        k["boundary"] = pick.choice(["periodic", "reflective"])
    if "nest" in kinds:
        inner = bp.Uniform(0, 1, name=s if pick.random() < 0.5 else "i", latex_label=s)
        if "list" in kinds or pick.random() < 0.03:
            p = gp.AlignedSpin(a_prior=inner, z_prior=bp.Uniform(-1, 1, unit=s), **k)
        else:
            p = bp.SlabSpikePrior(inner, 0.25, 0.5)      # it has the strings of its slab
        name = type(p).__name__
    elif "list" in kinds:
        name = pick.choice([n for n in ("Interped", "WeightedDiscreteValues", "DiscreteValues",
                                        "WeightedCategorical") if n in CATALOGUE])
        p = make(name, **k)
    else:
        name = pick.choice(PLAIN if pick.random() < 0.95 else ["ComovingVolume", "SourceFrame"])
        p = make(name, **k)
    where = OUT + "/t"
    for fmt in FORMATS:
        try:
            q = by(fmt, p, where)
        except Exception as e:
            return ("%s with the string %r cannot be read from its %s: %s: %s" % (
                repr(p)[:300], s, fmt, type(e).__name__, e), "%s:%s" % (fmt, name))
        r = differs(p, q)
        if r:
            return ("%s with the string %r read from its %s: %s" % (name, s, fmt, r), "%s:%s" % (fmt, name))
        if hasattr(p, "slab"):
            r = differs(p.slab, q.slab)
            if r:
                return ("slab of %s with the string %r read from its %s: %s" % (name, s, fmt, r), "%s:slab" % fmt)
    return None


# ---------------------------------------------------------------- histories of dictionaries
KINDS = {"uniform": "Uniform", "gaussian": "Gaussian", "powerlaw": "PowerLaw", "delta": "Delta",
         "truncated": "TruncatedGaussian", "beta": "Beta", "interped": "Interped", "slab": "SlabSpike",
         "constraint": "Constraint", "spin": "AlignedSpin", "distance": "ComovingVolume",
         "sourceframe": "SourceFrame", "chirp": "ChirpMass", "triangular": "Triangular", "fermi": "FermiDirac",
         "categorical": "Categorical", "loguniform": "LogUniform", "sine": "Sine", "exponential": "Exponential",
         "studentt": "StudentT", "values": "WeightedDiscreteValues"}
KINDS = {k: v for k, v in KINDS.items() if v in CATALOGUE}
LOSSY = {("gauss2", "text")}
BAD = {
    "class": "Foo(minimum=0)", "missing": "Uniform(minimum=0)", "extra": "Uniform(minimum=0, maximum=1, foo=2)",
    "word": "Uniform(minimum=0, maximum=bar)", "module": "nomod.Uniform(minimum=0, maximum=1)",
    "gwclass": "bilby.gw.prior.Foo(minimum=0)", "open": "Uniform(minimum=0, maximum=1",
    "nodist": "MultivariateGaussian(name='a')", "wrongdist": "MultivariateGaussian(dist=foo, name='a')",
    "boundary": "Uniform(0, 1, boundary='foo')", "empty": "Uniform(minimum=0, maximum=)",
    "nothing": "Uniform()", "bare": "Uniform", "twice": "Uniform(0,1))",
    "nested": "PowerLaw(alpha=Foo(1),minimum=0,maximum=1)", "trailing": "Uniform(minimum=0, maximum=1,)",
}
LABELS = ["$\\theta_{1}$", "a, b", "f(x) = 1", "$M_{\\odot}$", "it's", "x y", "\u03b1\u2609", "[1, 2]"]


def name_of(i):
    return "first" if i == 1 else "p%d" % i


def entry(e, ids, fresh):
    """The prior for an entry [name, kind, ver] of the specification."""
    i, kind, ver = e["name"], e["kind"], e["ver"]
    name = name_of(i)
    if kind == "gauss2":
        # the members are neighbours: the first of a pair has the lower name
        return None
    k = dict(name=name, latex_label=LABELS[(i + 3 * ver) % len(LABELS)])
    if i % 3 == 0:
        k["unit"] = "km / s"
    if kind == "shift":
        return bp.ConditionalUniform(condition_func=prior_conditions.shift, minimum=0.5, maximum=3 + ver / 3,
                                     **k)
    if kind == "steeper":
        return bp.ConditionalPowerLaw(condition_func=prior_conditions.steeper, alpha=1.5, minimum=0.5,
                                      maximum=3 + ver / 3, **k)
    if kind in ("distance", "sourceframe"):
        k["name"] = "luminosity_distance" if kind == "distance" else "redshift"
        k.pop("unit", None)
        return CATALOGUE[KINDS[kind]][0](**k)
    if KINDS[kind] in CATALOGUE and CATALOGUE[KINDS[kind]][1] and (i + ver) % 4 == 1:
        k["boundary"] = "periodic" if i % 2 else "reflective"
    return CATALOGUE[KINDS[kind]][0](v=ver, **k)


CACHE = {}


def cached(e):
    k = (e["name"], e["kind"], e["ver"])
    if k not in CACHE:
        CACHE[k] = entry(e, None, None)
    return CACHE[k]


def pairs(mem):
    """First and second member of the joint distributions of a memory."""
    out, open_ = [], {}
    for i, e in enumerate(mem):
        if e["kind"] == "gauss2":
            if "gauss2" in open_:
                out.append((open_.pop("gauss2"), i))
            else:
                open_["gauss2"] = i
    return out


def joint(a, b):
    names = [name_of(a["name"]), name_of(b["name"])]
    d = bp.MultivariateGaussianDist(names, nmodes=1, mus=[[0.1 + a["name"], 1 / 3]], sigmas=[[1 / 3, 2.0]],
                                    corrcoefs=[[[1.0, 0.1 * a["name"] / 3], [0.1 * a["name"] / 3, 1.0]]])
    return [bp.MultivariateGaussian(d, name=n, latex_label=LABELS[(e["name"] + 3 * e["ver"]) % len(LABELS)])
            for n, e in zip(names, (a, b))]


def dictionary(mem, cls, make_copies):
    d = (ConditionalPriorDict if cls == "conditional" else PriorDict)()
    p = {}
    for a, b in pairs(mem):
        p[a], p[b] = joint(mem[a], mem[b])
    for i, e in enumerate(mem):
        q = p[i] if i in p else cached(e)
        d[name_of(e["name"])] = copy.deepcopy(q) if make_copies and i not in p else q
    return d


def same_dist(x, y):
    if x is y:
        return None
    if x.names != y.names:
        return "names %s / %s" % (x.names, y.names)
    for a in ("mus", "sigmas", "corrcoefs", "covs", "weights"):
        if not np.allclose(np.asarray(getattr(x, a)), np.asarray(getattr(y, a)), rtol=1e-12, atol=0):
            return a
    if x != y:
        return "not equal"
    return None


def compare(d, mem, cls, check_class):
    want = dictionary(mem, cls, False)
    if list(d) != list(want):
        return "the keys are %s instead of %s" % (list(d), list(want))
    if check_class and type(d) is not type(want):
        return "it is a %s instead of a %s" % (type(d).__name__, type(want).__name__)
    for k in want:
        p, q = want[k], d[k]
        if isinstance(p, bp.MultivariateGaussian):
            if type(p) is not type(q):
                return "%s is %r" % (k, q)
            for a in ("name", "latex_label", "unit", "boundary"):
                if getattr(p, a) != getattr(q, a):
                    return "%s of %s is %r instead of %r" % (a, k, getattr(q, a), getattr(p, a))
            r = same_dist(p.dist, q.dist)
            if r:
                return "the distribution of %s differs: %s" % (k, r)
            continue
        if hasattr(p, "condition_func"):
            p = copy.copy(p)
            for x in (p, q):           # they keep what they were last conditioned on
                if hasattr(x, "condition_func"):
                    x.update_conditions(first=0.5)
        r = differs(p, q)
        if r:
            return "%s: %s" % (k, r)
        if hasattr(p, "slab"):
            r = differs(p.slab, q.slab)
            if r:
                return "slab of %s: %s" % (k, r)
        if hasattr(p, "condition_func"):
            if q.condition_func is not p.condition_func or q.reference_params != p.reference_params:
                return "the condition of %s is %r with %r" % (k, q.condition_func, q.reference_params)
            if q.required_variables != p.required_variables:
                return "the variables of %s" % k
    for a, b in pairs(mem):
        x, y = name_of(mem[a]["name"]), name_of(mem[b]["name"])
        if d[x].dist is not d[y].dist:
            return "%s and %s do not share their distribution" % (x, y)
    s = {}
    for i, k in enumerate(want):
        p = want[k]
        if isinstance(p, bp.Constraint):
            continue
        if isinstance(p, bp.MultivariateGaussian):
            s[k] = 0.3 + i / 10
        elif isinstance(p, bp.DeltaFunction):
            s[k] = p.peak
        elif hasattr(p, "condition_func"):
            s[k] = 1.0
        else:
            s[k] = float(p.rescale(0.37)) if not isinstance(p, bp.SlabSpikePrior) else 0.21
    if not any(isinstance(p, bp.Constraint) for p in want.values()):
        for one in (d, want):
            for p in one.values():
                if isinstance(p, bp.MultivariateGaussian):
                    p.dist.reset_request()
        with np.errstate(all="ignore"):
            x, y = d.ln_prob(dict(s), normalized=False), want.ln_prob(dict(s), normalized=False)
        if not np.isclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=True):
            return "ln_prob of %s is %r instead of %r" % (s, x, y)
    return None


def history(h):
    cls = h[0]["cls"]
    where = newdir("h")
    klass = ConditionalPriorDict if cls == "conditional" else PriorDict
    d = klass()
    texts = {}
    done = []
    try:
        for op in h:
            kind, arg, mem = op["op"], op["arg"], op["mem"]
            done.append((kind, arg))
            check_class = False
            if kind in ("add", "change"):
                new = dictionary(mem, cls, True)
                # a joint distribution is changed for both of its members
                for k in new:
                    if k not in d or kind == "change" and k == list(new)[arg - 1]:
                        d[k] = new[k]
                for a, b in pairs(mem):
                    x, y = name_of(mem[a]["name"]), name_of(mem[b]["name"])
                    d[x], d[y] = new[x], new[y]
                if cls == "conditional":
                    d.convert_floats_to_delta_functions()
            elif kind == "write":
                if arg == "file":
                    d.to_file(where, "p")
                elif arg == "json":
                    d.to_json(where, "p")
                else:
                    texts = {k: repr(d[k]) for k in d}
            elif kind == "read":
                if arg == "file":
                    d = klass(os.path.join(where, "p.prior"))
                elif arg == "json":
                    d = PriorDict.from_json(os.path.join(where, "p_prior.json"))
                    check_class = True
                else:
                    d = klass(dict(texts))
            else:
                bad = dict(texts)
                bad["worse"] = BAD[arg]
                with open(where + "/bad.prior", "w") as f:
                    f.write("good = Uniform(0, 1)\nworse = %s\n" % BAD[arg])
                for source in (bad, where + "/bad.prior"):
                    try:
                        got = klass(source)
                    except Exception:
                        pass
                    else:
                        return ("%s in a %s is read as %r" % (BAD[arg], type(source).__name__, got.get("worse")),
                                "bad:" + arg)
            r = compare(d, mem, cls, check_class) if kind in ("read", "bad") or len(done) == len(h) else None
            if r:
                return ("after %s: %s" % (" ".join("%s:%s" % x for x in done), r),
                        "%s:%s" % (kind, arg))
    except Exception as e:
        if isinstance(e, vlib.MachineryError):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if not any("/bilby/" in f.filename for f in tb):
            raise
        return ("after %s: %s: %s" % (" ".join("%s:%s" % x for x in done), type(e).__name__, e),
                "raise:%s:%s" % done[-1])
    finally:
        shutil.rmtree(where, ignore_errors=True)
    return None


SHAPES = [["num"], ["num", "str"], ["str", "num"], ["num", "str", "none", "str"], ["nest", "num", "str"],
          ["list", "str"], ["str", "str", "str"], ["nest", "list", "str"]]


def run(chk):
    pick = random.Random(SEED)
    text = dict(MaxLen=2, Sample=False,
                Alphabet={"letter", "space", "comma", "open", "close", "eq", "sq", "dq", "bs", "uni", "hash"},
                Shapes=vlib.raw("{" + ", ".join(vlib.tla_value(s) for s in SHAPES) + "}"))
    inv = ["Split", "StringsKept", "Closed", "Emit"]
    t = chk.tlc("text", "PriorText", constants=text, invariants=inv)
    every = t.emitted
    if not THOROUGH:
        every = pick.sample(every, min(len(every), 450))
    chk.replay_all("text", every, lambda b: text_case(b, pick), max_seconds=60 if THOROUGH else 12)
    t = chk.tlc("text-sampled", "PriorText", constants=dict(
        text, Sample=True, MaxLen=9, Alphabet=set(CHARS) - {"digit"} | {"digit"}), invariants=inv,
        simulate=6000 if THOROUGH else 500, depth=150)
    chk.replay_all("text-sampled", t.emitted, lambda b: text_case(b, pick), max_seconds=90 if THOROUGH else 12)
    store = dict(Kinds=set(KINDS), Joint={"gauss2"}, Cond={"shift", "steeper"}, Formats={"file", "json", "text"},
                 Lossy=vlib.raw('{<<"gauss2", "text">>}'), Bad=set(BAD), MaxEntries=5, MaxOps=12)
    inv = ["ReadBack", "Pairs", "UniqueNames", "Emit"]
    small = dict(store, Kinds={"uniform", "interped"}, Cond={"shift"}, MaxEntries=2, MaxOps=5 if THOROUGH else 4,
                 Bad=set(), Formats={"file", "json", "text"})
    t = chk.tlc("dictionary", "PriorStore", constants=small, invariants=inv)
    every = [h for h in t.emitted if h[-1]["op"] == "read"]
    if not THOROUGH:
        every = pick.sample(every, min(len(every), 150))
    chk.replay_all("dictionary", every, history, max_seconds=120 if THOROUGH else 10)
    t = chk.tlc("dictionary-sampled", "PriorStore", constants=store, spec="SimSpec", invariants=inv,
                simulate=3000 if THOROUGH else 250, depth=14)
    chk.replay_all("dictionary-sampled", t.emitted, history, max_seconds=240 if THOROUGH else 14)
