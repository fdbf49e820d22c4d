"""C27: every draw is a function of the seed and of the calls made since."""
import json
import vlib
from vlib import THOROUGH, SEED
from c02 import run_jobs

DRIVER = "c27_driver.py"


def run(chk):
    names = run_jobs(chk, DRIVER, [dict(list=True)], "registry")[0]
    n = len(names)
    chk.tlc("model", "RandomDraws", constants=dict(Ops={1, 2}, Seeds={1, 2}, MaxLen=5, MaxSuffix=3, Own=set()), spec="Spec", invariants=["Function"])
    # a generator of its own for one operation breaks the property: the model can see it
    bad = chk.tlc("model of a second generator", "RandomDraws", constants=dict(Ops={1, 2}, Seeds={1, 2}, MaxLen=5, MaxSuffix=3, Own={1}), spec="Spec",
                  invariants=["Function"], allow_violation=True)
    if not bad.violation:
        raise vlib.MachineryError("the model does not see a second generator")
    num = 6000 if THOROUGH else 160
    sim = chk.tlc("histories", "RandomDraws", constants=dict(Ops=set(range(1, n + 1)), Seeds={1, 2, 3}, MaxLen=18, MaxSuffix=8, Own=set()), spec="SimSpec", invariants=["Emit"], simulate=num, depth=20)
    behaviours = [e["hist"] for e in sim.emitted]

    def H(*steps):
        out, seed, calls = [], 0, []
        for do, x in steps:
            if do == "seed":
                seed, calls = x, []
            out.append(dict(do=do, x=x, seed=seed, calls=list(calls)))
            if do == "draw":
                calls = calls + [x]
        return out
    # behaviours of the same specification: every operation twice, then after seeding again, and after another one
    systematic = []
    for i in range(1, n + 1):
        j = (i + 13 * SEED) % n + 1
        systematic.append(H(("seed", 1), ("draw", i), ("noise", 1), ("draw", i), ("seed", 1), ("draw", i), ("draw", i), ("seed", 2), ("draw", i), ("noise", 2),
                            ("seed", 1), ("draw", j), ("draw", i), ("seed", 1), ("draw", i)))
    behaviours = systematic + behaviours
    # processes with different string hashes, with objects built beforehand or for every draw; histories in another order
    k = 2
    jobs, meta = [], []
    for hs, keep, rev in [("1", True, False), ("2", False, False), ("77", True, True)]:
        idx = list(range(len(behaviours)))
        if rev:
            idx = idx[::-1]
        for part in range(k):
            sub = idx[part::k]
            jobs.append(dict(behaviours=[[dict(do=h["do"], x=h["x"]) for h in behaviours[i]] for i in sub], keep=keep, base=SEED * 1000, env=dict(PYTHONHASHSEED=hs)))
            meta.append((hs, keep, sub))
    outs = run_jobs(chk, DRIVER, jobs, "draws", n_par=6, timeout=800)
    seen, other, bad_ops = {}, {}, set()
    for (hs, keep, sub), rows in zip(meta, outs):
        for i, row in zip(sub, rows):
            chk.replayed("draws", len(row), dict(operations=names, history=behaviours[i], digests=row) if i < 1 else None)
            for pos, (h, v) in enumerate(zip(behaviours[i], row)):
                if h["do"] != "draw":
                    continue
                name = names[h["x"] - 1]
                chk.count("draws", draws=1)
                where = dict(hash_seed=hs, built_beforehand=keep, behaviour=i, position=pos)

                def report(what, first, name=name, h=h, where=where):
                    if name in bad_ops:
                        return
                    bad_ops.add(name)
                    steps = [names[c - 1] for c in h["calls"]]
                    chk.violation("draws", "%s: %s (seed %s, after %s)" % (name, what, h["seed"], steps or "no other call"), dict(here=where, first=first, history=behaviours[where["behaviour"]]),
                                  key="stdlib-random-in-" + name[7:].replace(" ", "-") if name.startswith("known: ") else None)
                if v.startswith("error"):
                    if "/bilby/" in v.replace("/verif/", ""):
                        report("the draw fails: " + v[-600:], None)
                    else:
                        raise vlib.MachineryError(name + v)
                    continue
                token = (h["seed"], tuple(h["calls"]), h["x"])
                if token in seen and seen[token][0] != v:
                    report("different values for the same seed and the same calls", seen[token][1])
                seen.setdefault(token, (v, where))
                o = other.setdefault((token[1], h["x"], v), h["seed"])
                if o != h["seed"]:
                    report("the same value for the seeds %s and %s" % (o, h["seed"]), None)
                # the same call made twice in a row gives something else the second time
                if token[1] and token[1][-1] == h["x"]:
                    before = seen.get((h["seed"], token[1][:-1], h["x"]))
                    if before and before[0] == v:
                        report("the same value when called again", before[1])
