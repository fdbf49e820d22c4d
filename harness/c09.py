"""C09: a prior dictionary depends only on its current content."""
import math
import numpy as np
import vlib
from vlib import close, THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core import prior as bp
from bilby.core.utils import random as brandom
import priorlib
from priorlib import make_prior


def observe(d, obs, normalized=True):
    """Compare every observation of the dictionary d with the specification's; None or a description."""
    if list(d.keys()) != obs["keys"]:
        return "keys %s, specification %s" % (list(d.keys()), obs["keys"])
    if sorted(d.non_fixed_keys) != sorted(obs["free"]):
        return "non_fixed_keys %s, specification %s" % (d.non_fixed_keys, obs["free"])
    if sorted(d.fixed_keys) != sorted(obs["fixed"]):
        return "fixed_keys %s, specification %s" % (d.fixed_keys, obs["fixed"])
    if d.constraint_keys:
        return "constraint_keys %s, specification none" % d.constraint_keys
    free = obs["free"]
    if not obs["resolvable"]:
        if not free:
            return
        for what, call in (("rescale", lambda: d.rescale(list(free), [0.5] * len(free))),
                           ("sample", lambda: d.sample()),
                           ("prob", lambda: d.prob({k: 0.0 for k in free}))):
            try:
                v = call()
            except Exception:
                continue
            return "%s of an unresolvable dictionary returned %s instead of an error" % (what, v)
        return
    for r in obs["rescale"]:
        ks = [x["k"] for x in r]
        got = d.rescale(ks, [x["q"] / 4 for x in r])
        if not close(got, [x["v"] for x in r]):
            return "rescale(%s, quarters %s) = %s, specification %s" % (ks, [x["q"] for x in r], got, [x["v"] for x in r])
    if free:
        pt = {x["k"]: float(x["v"]) for x in obs["point"] if x["k"] in free}
        if normalized:
            got = d.prob(dict(pt))
            if not close(got, 1.0 / obs["dens"]):
                return "prob(%s) = %s, specification 1/%s" % (pt, got, obs["dens"])
        got = d.ln_prob(dict(pt), normalized=normalized)
        if not close(got, -math.log(obs["dens"])):
            return "ln_prob(%s) = %s, specification -ln %s" % (pt, got, obs["dens"])
        got = d.cdf(dict(pt))
        for x in obs["point"]:
            if x["k"] in free and not close(got[x["k"]], x["q"] / 4):
                return "cdf(%s)[%s] = %s, specification %s/4" % (pt, x["k"], got[x["k"]], x["q"])
        off = dict(pt)
        last = free[-1]
        off[last] += 100000.0
        if d.ln_prob(dict(off), normalized=normalized) != -np.inf or (normalized and d.prob(dict(off)) != 0):
            return "prob outside the support of %s is not zero" % last
    # draws are those of a freshly built dictionary with the same content
    if obs["keys"]:
        fresh = d.__class__({x["k"]: make_prior(x["e"]) for x in obs["content"]})
        for call in (lambda p: p.sample(), lambda p: p.sample(3),
                     lambda p: p.sample_subset(list(obs["keys"]), size=2)):
            brandom.seed(11)
            a = call(d)
            brandom.seed(11)
            b = call(fresh)
            if list(a) != list(b) or any(not close(a[k], b[k]) for k in a):
                return "draws %s differ from those of a fresh dictionary %s" % (a, b)
        if set(a) != set(obs["keys"]):
            return "sampled keys %s" % list(a)


def apply(d, s):
    op, args = s["op"], s["args"]
    if op == "set":
        d[args[0]["k"]] = make_prior(args[0]["e"])
    elif op == "del":
        del d[args[0]["k"]]
    elif op == "pop":
        r = d.pop(args[0]["k"])
        assert isinstance(r, bp.Prior)
    elif op == "update":
        d.update({args[0]["k"]: make_prior(args[0]["e"])})
    elif op == "setdefault":
        d.setdefault(args[0]["k"], make_prior(args[0]["e"]))
    elif op == "clear":
        d.clear()
    elif op == "copy":
        old = d
        d = d.copy()
        if type(d) is not type(old):
            raise AssertionError("copy() changed the class")
        old["extra"] = bp.Uniform(0, 1)
        for k in list(old)[:1]:
            del old[k]
    else:
        raise vlib.MachineryError(op)
    return d


def replay_factory(cls, observe_every, every=15):
    n = [0]

    def replay(b):
        d = cls({x["k"]: make_prior(x["e"]) for x in b[0]["args"]})
        for i, s in enumerate(b):
            if i:
                d = apply(d, s)
            if observe_every or i in (0, len(b) - 1):
                # the normalisation of prob() costs some 40 ms of sampling, hence not at every step
                n[0] += 1
                r = observe(d, s["obs"], n[0] % every == 0)
                if r:
                    return "step %d (%s): %s" % (i, s["op"], r)
    return replay


def E(t, lo, w=0, *deps):
    return dict(t=t, lo=lo, w=w, deps=frozenset(deps))


INV = ["TypeOK", "Partition", "CycleOrMissing", "InSupport", "Emit"]


def constants(keys, entries, ops, inits, k):
    return dict(Keys=set(keys), KeySeq=list(keys), Entries=vlib.raw("{%s}" % ", ".join(vlib.tla_value(e) for e in entries)),
                Ops=set(ops), Inits=vlib.raw("{%s}" % ", ".join(
                    "<<%s>>" % ", ".join("<<%s, %s>>" % (vlib.tla_value(a), vlib.tla_value(e)) for a, e in i) for i in inits)), K=k)


def run(chk):
    # plain dictionaries
    plain = [E("U", 0, 4), E("U", 10, 8), E("D", 5)]
    r = chk.tlc("plain", "PriorDict", constants=constants(
        "abc", plain, ["set", "del", "copy", "update", "pop", "setdefault"],
        [[("a", plain[0]), ("b", plain[1])], [("c", plain[2]), ("a", plain[1]), ("b", plain[0])]],
        3 if THOROUGH else 2), invariants=INV)
    chk.replay_all("plain", r.emitted, replay_factory(bp.PriorDict, True))
    # conditional dictionaries, exhaustive short histories
    cond = [E("U", 0, 4), E("D", 5), E("CU", 100, 4, "a"), E("CU", 200, 8, "b"), E("CD", 1000, 0, "a"), E("CU", 300, 4, "a", "b")]
    inits = [[("b", E("CU", 100, 4, "a")), ("a", E("U", 0, 4))],
             [("c", E("CU", 300, 4, "a", "b")), ("b", E("CD", 1000, 0, "a")), ("a", E("U", 8, 4))],
             [("a", E("D", 5)), ("b", E("CU", 100, 8, "a"))]]
    r = chk.tlc("conditional", "PriorDict", constants=constants(
        "abc", cond, ["set", "del", "update", "copy"] if not THOROUGH else ["set", "del", "update", "copy", "pop", "setdefault", "clear"],
        inits, 2), invariants=INV)
    chk.replay_all("conditional", r.emitted, replay_factory(bp.ConditionalPriorDict, True), max_seconds=60 if not THOROUGH else 600)
    # random longer histories, four keys, all operations, observed only at the ends or everywhere
    cond4 = cond + [E("CU", 400, 8, "c"), E("CU", 500, 4, "a", "d"), E("CD", 2000, 0, "c"), E("U", 10, 8)]
    for every in (True, False):
        r = chk.tlc("random-%s" % ("observed" if every else "unobserved"), "PriorDict", constants=constants(
            "abcd", cond4, ["set", "del", "update", "copy", "pop", "setdefault", "clear"], inits, 8),
            spec="SimSpec", invariants=INV, simulate=6000 if THOROUGH else 400, depth=10, seed=vlib.SEED + every)
        chk.replay_all("random-%s" % ("observed" if every else "unobserved"), r.emitted,
                       replay_factory(bp.ConditionalPriorDict, every))
