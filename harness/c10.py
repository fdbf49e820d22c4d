"""C10: conditional priors are resolved in dependency order."""
import math
import numpy as np
import vlib
from vlib import close, THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core import prior as bp
from bilby.core.utils import random as brandom
from priorlib import make_prior

TRACES = []


def refused(call):
    try:
        call()
    except Exception:
        return True
    return False


def bounds(o, pt):
    """Conditional support of every key at the point pt, from the specification's entries."""
    return {e["k"]: e["lo"] + sum(pt[j] for j in e["deps"]) for e in o["dict"]}


def draws_to_events(samples, n):
    return [{k: int(math.floor(np.asarray(v).flatten()[i])) for k, v in samples.items()} for i in range(n)]


def replay(o, full=True):
    d = bp.ConditionalPriorDict({e["k"]: make_prior(e, name=e["k"]) for e in o["dict"]})
    keys = [e["k"] for e in o["dict"]]
    free = [e["k"] for e in o["dict"] if e["t"] not in ("D", "CD")]
    width = {e["k"]: e["w"] for e in o["dict"]}
    if not o["ok"]:
        for what, call in (("sample", lambda: d.sample()), ("sample(2)", lambda: d.sample(2)),
                           ("rescale", lambda: d.rescale(free, [0.5] * len(free))),
                           ("prob", lambda: d.prob({k: 0.5 for k in keys})),
                           ("ln_prob", lambda: d.ln_prob({k: 0.5 for k in keys}))):
            if not refused(call):
                return "%s did not refuse the unresolvable dictionary" % what
        return
    for r in o["rescale"]:
        ks = [x["k"] for x in r]
        got = d.rescale(ks, [x["q"] / 4 for x in r])
        if not close(got, [x["v"] for x in r]):
            return "rescale(%s) = %s, specification %s" % ([(x["k"], x["q"]) for x in r], got, [x["v"] for x in r])
    for pt in o["points"]:
        p = {x["k"]: float(x["v"]) for x in pt}
        ks = [k for k in p if k in free]
        expect = -sum(math.log(width[k]) for k in ks)
        sub = {k: p[k] for k in ks}
        got = d.ln_prob(dict(sub), normalized=False)
        if not close(got, expect):
            return "ln_prob(%s) = %s, specification %s" % (sub, got, expect)
        got = d.cdf(dict(sub))
        for x in pt:
            if x["k"] in free and not close(np.squeeze(got[x["k"]]), x["q"] / 4):
                return "cdf(%s)[%s] = %s, specification %s/4" % (sub, x["k"], got[x["k"]], x["q"])
        # only just outside the conditional support of one key
        for k in ks:
            off = dict(sub)
            off[k] = off[k] + width[k]
            kids = [e["k"] for e in o["dict"] if k in e["deps"]]
            got = d.ln_prob(off, normalized=False)
            if got != -np.inf:
                return "ln_prob(%s) = %s, but %s is above its conditional support" % (off, got, k)
    # arrays: the points above, shifted within the support of the last key
    if not any(e["t"] == "CP" for e in o["dict"]):
        pts = o["points"]
        arr = {k: np.array([[float(x["v"]) for x in pt if x["k"] == k][0] for pt in (pts[0], pts[1])]) for k in free}
        got = d.ln_prob(dict(arr), axis=0, normalized=False)
        expect = -sum(math.log(width[k]) for k in free)
        if not close(got, [expect, expect]):
            return "ln_prob of arrays = %s, specification %s" % (got, expect)
    for s in o["subsets"]:
        if not s["s"]:
            continue
        if s["ok"]:
            got = d.sample_subset(list(s["s"]))
            if set(got) != set(s["s"]):
                return "sample_subset(%s) returned the keys %s" % (s["s"], list(got))
        elif not refused(lambda: d.sample_subset(list(s["s"]))):
            return "sample_subset(%s) did not refuse though a dependency is missing" % s["s"]
    ev = []
    for i in range(2):
        ev += draws_to_events(d.sample(), 1)
    ev += draws_to_events(d.sample(4), 4)
    if not any(e["t"] == "CP" for e in o["dict"]):
        x = d.sample((2, 3))
        if any(np.shape(v) != (2, 3) for v in x.values()):
            return "sample((2, 3)) has the shapes %s" % [np.shape(v) for v in x.values()]
        ev += draws_to_events(x, 6)
    arr = d.sample_subset_constrained_as_array(list(reversed(keys)), size=3)
    ev += [{k: int(math.floor(arr[j][i])) for j, k in enumerate(reversed(keys))} for i in range(3)]
    # evaluations in between must not leave anything behind
    d.ln_prob({k: float(v) for k, v in zip(free, d.rescale(free, [0.25] * len(free)))}, normalized=False)
    ev += draws_to_events(d.sample_subset(list(reversed(keys)), size=3), 3)
    TRACES.append(dict(dict=o["dict"], events=ev))


INV = ["NotResolvedMeansCycleOrMissing", "ValueInConditionalSupport", "OrderIndependent", "Emit"]


def run(chk):
    brandom.seed(vlib.SEED)

    def part(name, keys, missing, fixed, kinds, edges, below, limit=None, depth=0, orders=()):
        consts = dict(KeySeq=list(keys), Missing=set(missing), FixedChoices=set(fixed),
                      CondKinds=set(kinds), MaxEdges=edges, Below=below, MinDepth=depth, Orders={tuple(o) for o in orders})
        r = chk.tlc(name, "PriorGraph", constants=consts, invariants=INV, spec="Spec2", timeout=800)
        rs = np.random.RandomState(vlib.SEED)
        beh = []
        for sel in ([b for b in r.emitted if b["ok"]], [b for b in r.emitted if not b["ok"]]):
            if limit and len(sel) > limit:
                sel = [sel[i] for i in sorted(rs.choice(len(sel), limit, replace=False))]
            beh += sel
        del TRACES[:]
        chk.replay_all(name, beh, replay)
        chk.validate(name + "-draws", "PriorGraph", list(TRACES), constants=consts)
    T = THOROUGH
    part("graphs-3-keys", "abc", "z", {0}, {"CU"}, 9, False, None if T else 500)
    part("graphs-3-fixed", "abc", "", {1, 2}, {"CU", "CD"}, 9, False, None if T else 400)
    part("graphs-3-elementwise", "abc", "", {0, 1}, {"CP", "CU", "CD"}, 6, True, None if T else 250)
    part("graphs-4-keys", "abcd", "", {0, 1} if T else {0}, {"CU", "CD"} if T else {"CU"}, 6, True, None if T else 500)
    part("chains-5-keys", "abcde", "", {0}, {"CU"}, 6, True, None, depth=3 if T else 4,
         orders=["edcba", "abcde", "ebdac"])
    part("chains-5-fixed", "abcde", "", {1, 2}, {"CU", "CD"}, 4, True, None if T else 100, depth=4, orders=["edcba", "decab"])
    if T:
        part("graphs-5-keys", "abcde", "", {0}, {"CU"}, 4, True, 6000)
