"""C08: reweighting uses the right weight for every sample, interrupted or not."""
import copy
import json
import os
import resource
import shutil
import numpy as np
import vlib
from vlib import THOROUGH, newdir
bilby = vlib.bilby_quiet()
import pandas as pd
import lives
from bilby.core.prior import PriorDict, Uniform, Prior
from bilby.core.result import Result, get_weights_for_reweighting, reweight

FUN = dict(oldL=lambda v: 1 - v, newL=lambda v: -2 * v, oldP=lambda v: v - 2, newP=lambda v: -1 if v == 2 else 0)


class Lik(bilby.Likelihood):
    def __init__(self, name, fail=None, off=0):
        super().__init__(dict(x=None))
        self.name, self.fail, self.off = name, fail, off

    def log_likelihood(self):
        p = self.parameters
        if self.fail is not None and p["number"] == self.fail:
            raise RuntimeError("interrupted")
        return float(FUN[self.name](p["x"])) + self.off


class Pri(PriorDict):
    """A prior whose logarithm is a known function of the sample; only parameters may be passed."""
    name = None
    fail = None

    def ln_prob(self, sample, axis=None, normalized=True):
        extra = set(sample) - {"x", "number", "weights"}
        if extra:
            raise ValueError("the prior is evaluated with %s" % extra)
        if self.fail is not None and sample["number"] == self.fail:
            raise RuntimeError("interrupted")
        return float(FUN[self.name](sample["x"]))


def prior(name, fail=None):
    p = Pri(dict(x=Uniform(0, 10 if name == "oldP" else 20)))
    p.name, p.fail = name, fail
    return p


def make_result(b):
    x = np.array(b["x"], float)
    df = pd.DataFrame(dict(x=x, log_likelihood=-x, log_prior=-3.0 + 0 * x, number=np.arange(1.0, len(x) + 1)))
    return Result(label="l", outdir=".", search_parameter_keys=["x"], priors=PriorDict(dict(x=Uniform(0, 10))), posterior=df, log_evidence=-5.0,
                  log_evidence_err=0.1, meta_data=dict(a=1))


def arguments(b, fail=None):
    fail = fail or {}
    kw = {}
    if b["opt"]["oldL"]:
        kw["old_likelihood"] = Lik("oldL", fail.get("lik"))
    if b["opt"]["newL"]:
        kw["new_likelihood"] = Lik("newL", fail.get("lik"))
    if b["opt"]["oldP"]:
        kw["old_prior"] = prior("oldP", fail.get("prior"))
    if b["opt"]["newP"]:
        kw["new_prior"] = prior("newP", fail.get("prior"))
    return kw


def stopped(b, h, fn):
    """A life of the calculation which stops at the planned point: error, process death or disk full."""
    k = h["i"]
    if h["at"] == "lik":
        fail = dict(lik=k)
    elif h["at"] == "prior":
        fail = dict(prior=k)
    else:
        fail = {}

    def work():
        if h["at"] == "write":
            # every write to the disk fails after some bytes
            resource.setrlimit(resource.RLIMIT_FSIZE, (130 + 40 * k, 130 + 40 * k))
        elif h["at"] == "move":
            n = [0]

            def renaming(args):
                n[0] += 1
                os._exit(lives.KILLED)
            lives.HOOKS["rename"] = renaming
        r = make_result(b)
        get_weights_for_reweighting(r, resume_file=fn, n_checkpoint=b["c"], **arguments(b, fail))
    return lives.fork(work, fn + ".err", timeout=60)


def check_rows(what, got, b):
    lnw, nl, npr, ol, opr = [np.asarray(q, float) for q in got]
    for j, row in enumerate(b["rows"]):
        have = (ol[j], opr[j], nl[j], npr[j])
        if not np.array_equal(have, row):
            return "%s: sample %d has old likelihood, old prior, new likelihood, new prior %s instead of %s" % (what, j + 1, have, row)
        if lnw[j] != b["lnw"][j]:
            return "%s: the log weight of sample %d is %s instead of %s" % (what, j + 1, lnw[j], b["lnw"][j])


def replay(b):
    d = newdir("rw_")
    try:
        fn = os.path.join(d, "resume.dat")
        for h in b["lives"]:
            if h["at"] == "none":
                continue
            stopped(b, h, fn)
        r = make_result(b)
        before = r.posterior.copy()
        for again in range(2):
            got = get_weights_for_reweighting(r, resume_file=fn, n_checkpoint=b["c"], **arguments(b))
            e = check_rows("resumed" if not again else "resumed when finished", got, b)
            if e:
                return e
        if not before.equals(r.posterior):
            return "the posterior of the result was modified"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(r):
    return dict(post=r.posterior.copy(), nested=None if r._nested_samples is None else r.nested_samples.copy(), meta=copy.deepcopy(r.meta_data),
                priors={k: repr(v) for k, v in r.priors.items()}, label=r.label, ev=r.log_evidence, err=r.log_evidence_err)


def differs(a, r):
    b = snapshot(r)
    for k in a:
        same = a[k].equals(b[k]) if hasattr(a[k], "equals") else a[k] == b[k]
        if not same:
            return k


def full(b):
    """reweight(): the whole procedure on many copies of the samples"""
    n0 = len(b["x"])
    m = 400
    x = np.repeat(np.array(b["x"], float), m)
    lnw = np.repeat(np.array(b["lnw"], float), m)
    r = make_result(dict(b, x=list(x)))
    off = dict(enumerate([0, 0, -900.0, 900.0]))[(n0 + b["c"]) % 4] if not b["opt"]["newL"] else 0.0
    nest = np.ones(len(x)) / len(x)
    if b["opt"]["nested"]:
        nest = 1.0 + (np.arange(len(x)) % 2)
        nest /= nest.sum()
        q = r.posterior.copy()
        q["weights"] = nest
        r.nested_samples = q
        r.posterior = r.posterior[:3].copy()
    snap = snapshot(r)
    kw = arguments(b)
    if off:
        kw["new_likelihood"] = Lik("newL", off=off)
        ol = np.repeat(np.array([w[0] for w in b["rows"]], float), m)
        old_nl = np.repeat(np.array([w[2] for w in b["rows"]], float), m)
        lnw = lnw - old_nl + (-2 * x + off)
        nl = -2 * x + off
    else:
        nl = np.repeat(np.array([w[2] for w in b["rows"]], float), m)
    npr = np.repeat(np.array([w[3] for w in b["rows"]], float), m)
    conv = []

    def conversion(df, likelihood, priors):
        conv.append((likelihood is kw.get("new_likelihood"), priors is kw.get("new_prior")))
        df["twice"] = 2 * df["x"]
        return df
    bilby.core.utils.random.seed(17)
    use_conv = b["c"] % 2 == 1
    out = reweight(r, label="new" if b["c"] > 1 else None, use_nested_samples=b["opt"]["nested"], verbose_output=True,
                   conversion_function=conversion if use_conv else None, **kw)
    new, weights = out[0], np.asarray(out[1], float)
    k = differs(snap, r)
    if k:
        return "the original result was modified: %s" % k
    if new is r:
        return "the original result is returned"
    tot = lnw + np.log(nest)
    with np.errstate(over="ignore"):
        if abs(off) < 1 and not np.allclose(weights, np.exp(tot if b["opt"]["nested"] else lnw), rtol=1e-9):
            return "the weights returned are wrong"
    ev = -5.0 + np.max(tot) + np.log(np.sum(np.exp(tot - np.max(tot))))
    if not np.isclose(new.log_evidence, ev, rtol=1e-9, atol=1e-9):
        return "the evidence is %s instead of %s" % (new.log_evidence, ev)
    p = new.posterior
    num = p["number"].to_numpy().astype(int) - 1
    if len(set(num)) != len(num) or list(num) != sorted(num):
        return "accepted samples are repeated or out of order"
    if list(p.index) != list(range(len(p))):
        return "the index of the new posterior is not counted from zero"
    if not (np.array_equal(p["x"], x[num]) and np.array_equal(p["log_likelihood"], nl[num]) and np.array_equal(p["log_prior"], npr[num])):
        return "accepted samples have values of another sample or of the old likelihood and prior"
    eff = lnw + (np.log(nest) if b["opt"]["nested"] else 0)
    prob = np.exp(eff - np.max(eff))
    for v in sorted(set(prob)):
        sel = np.where(prob == v)[0]
        kept = len(set(sel) & set(num))
        mean, sd = len(sel) * v, np.sqrt(len(sel) * v * (1 - v))
        if abs(kept - mean) > 6 * sd + 1e-6 + (1 if v < 1 else 0):
            return "%d of %d samples of relative weight %s are accepted" % (kept, len(sel), v)
    if new.label != ("new" if b["c"] > 1 else "l_reweighted"):
        return "the label of the new result is %s" % new.label
    if b["opt"]["newP"] and new.priors["x"] != Uniform(0, 20):
        return "the new prior is not that of the new result"
    if use_conv and (conv != [(True, True)] or "twice" not in p):
        return "the conversion function was not applied"


def run(chk):
    inv = ["AllRight", "DiskRight"]
    cons = dict(NS={1, 2, 3} if not THOROUGH else {1, 2, 3, 4}, CS={1, 2, 3}, Lives=2 if not THOROUGH else 3, Values={0, 2}, Restart="known")
    chk.tlc("model", "Reweight", constants=cons, invariants=inv)
    bad = chk.tlc("resuming from any sample", "Reweight", constants=dict(cons, Restart="any"), invariants=inv, allow_violation=True)
    if not bad.violation:
        raise vlib.MachineryError("the model accepts resuming from any sample")
    r = chk.tlc("histories", "Reweight", spec="SimSpec", constants=dict(cons, NS={1, 2, 5, 6, 7}, CS={1, 2, 3, 4}, Values={0, 1, 2, 3}, Lives=4), invariants=inv + ["Emit"],
                simulate=700 if THOROUGH else 170, depth=80)
    seen, todo = set(), []
    for b in r.emitted:
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k)
            todo.append(b)
    chk.replay_all("interrupted", todo if THOROUGH else todo[:110], replay)
    chk.replay_all("whole", todo if THOROUGH else todo[:150], full)
