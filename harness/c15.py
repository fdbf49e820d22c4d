"""C15: the sampler evaluates prior and likelihood at exactly the proposed point."""
import contextlib
import io
import math
import os
import numpy as np
import vlib
from vlib import THOROUGH, SEED, close
from samplib import (bilby, PriorDict, Uniform, DeltaFunction, Constraint, NestedSampler, MCMCSampler,
                     WeightedSum, Cells, Total, brandom)

LIMIT, NOISE = 2, 1000
W = [1, 100, 10000, 1000000, 100000000]


class Nested(NestedSampler):
    default_kwargs = {}


class Mcmc(MCMCSampler):
    default_kwargs = {}


def points(chk):
    # all families of evaluated points, in every order of kinds of parameters
    r = chk.tlc("points", "SamplerEval", invariants=["Partition", "FixedStay", "Emit"],
                constants=dict(Lens={1, 2, 3}, MaxOps=1, Limit=LIMIT, Noise=NOISE, Classes={"nested", "mcmc"},
                               Points={(m, a) for m in (1, 2, 3, 5) for a in (0, 3)} , Units={(1, 0), (2, 1), (3, 3)}))
    r2 = chk.tlc("histories", "SamplerEval", spec="SimSpec", invariants=["Partition", "FixedStay", "Emit"],
                 simulate=4000 if THOROUGH else 700, depth=11,
                 constants=dict(Lens={2, 3, 4}, MaxOps=10, Limit=LIMIT, Noise=NOISE, Classes={"nested", "mcmc"},
                                Points={(1, 0), (2, 3), (3, 1), (5, 2), (4, 5)}, Units={(1, 0), (2, 1), (3, 3)}))
    made = {}

    def build(b):
        kinds = tuple(b["kinds"])
        names = ["p%d" % (i + 1) for i in range(len(kinds))]
        # names whose alphabetical order is not the order of insertion
        names = [n + "_" + "zyxwv"[i] for i, n in enumerate(["q", "b", "m", "a", "k"][:len(kinds)])]
        if kinds not in made:
            free = [n for n, k in zip(names, kinds) if k == "free"]
            cons = [n for n, k in zip(names, kinds) if k == "con"]
            d = {}
            low = sum(i for i, k in enumerate(kinds, 1) if k == "free")
            for i, (n, k) in enumerate(zip(names, kinds), 1):
                d[n] = (Uniform(i, i + 4, n) if k == "free" else DeltaFunction(10.0 * i, n) if k == "fixed"
                        else 10.0 * i if k == "num" else Constraint(-1000, low + i + LIMIT + 0.5, n))
            made[kinds] = PriorDict(d, conversion_function=Total(free, cons)), [None]
        pd, norm = made[kinds]
        lk = WeightedSum({n: W[i] for i, n in enumerate(names) if kinds[i] != "con"}, NOISE)
        cls = Nested if b["cls"] == "nested" else Mcmc
        s = cls(lk, pd, outdir="out", label="l", use_ratio=b["ratio"], skip_import_verification=True, soft_init=True)
        return names, pd, norm, lk, s

    def nan(x):
        return float(np.nan_to_num(x))

    def check(b):
        if all(h["op"] == "scribble" for h in b["hist"]):
            return None
        names, pd, norm, lk, s = build(b)
        at = lambda idx: [names[i - 1] for i in idx]
        if list(s.search_parameter_keys) != at(b["search"]) or list(s.fixed_parameter_keys) != at(b["fixed"]) \
                or list(s.constraint_parameter_keys) != at(b["cons"]):
            return "keys %s %s %s" % (s.search_parameter_keys, s.fixed_parameter_keys, s.constraint_parameter_keys)
        if s.ndim != len(b["search"]):
            return "ndim %s" % s.ndim
        for j, h in enumerate(b["hist"]):
            th = np.array(h["th"], dtype=float)
            if h["op"] == "eval":
                n0 = lk.calls
                v = s.log_likelihood(th)
                if h["excluded"]:
                    if nan(v) != nan(-np.inf) or lk.calls != n0:
                        return "step %d: excluded point gives %s with %d evaluations" % (j, v, lk.calls - n0)
                elif v != h["value"] or lk.calls != n0 + 1:
                    return "step %d: log likelihood %s of %s in %d evaluations, specification %s" % (j, v, h["th"], lk.calls - n0, h["value"])
            elif h["op"] == "prior":
                v = s.log_prior(th)
                if h["zero"]:
                    if v != -np.inf:
                        return "step %d: log prior %s of an excluded point" % (j, v)
                else:
                    base = -len(b["search"]) * math.log(4)
                    if not b["cons"]:
                        if not close(v, base):
                            return "step %d: log prior %s, specification %s" % (j, v, base)
                    else:
                        if v < base - 1e-9 or (norm[0] is not None and not close(v, norm[0])):
                            return "step %d: log prior %s, earlier %s, unconstrained %s" % (j, v, norm[0], base)
                        norm[0] = v
            elif h["op"] == "transform":
                v = s.prior_transform(np.array(h["u"], dtype=float) / 4)
                if not close(v, [float(x) for x in h["th"]]):
                    return "step %d: prior transform %s, specification %s" % (j, v, h["th"])
            elif h["op"] == "check":
                v = s.check_draw(th, warning=False)
                if bool(v) != h["ok"]:
                    return "step %d: check of %s gives %s" % (j, h["th"], v)
            elif h["op"] == "scribble":
                for i, k in enumerate(b["kinds"]):
                    if k == "free":
                        lk.parameters[names[i]] = 99.0
        return None
    chk.replay_all("points", r.emitted, check)
    chk.replay_all("histories", r2.emitted, check)


OPTIONS = dict(
    dynesty=dict(nlive=30, dlogz=3, sample="unif", bound="live", check_point_plot=False, print_method="none"),
    dynesty_resampled=dict(nlive=30, dlogz=3, sample="rwalk", walks=10, naccept=2, maxmcmc=20, bound="live", check_point_plot=False, print_method="none",
                           rejection_sample_posterior=False),
    nestle=dict(nlive=30, dlogz=3),
    ultranest=dict(num_live_points=30, dlogz=3, max_num_improvement_loops=0, verbose=0, show_status=False),
    emcee=dict(nwalkers=10, iterations=14, nburn=3),
    zeus=dict(nwalkers=10, iterations=8, nburn=2),
    kombine=dict(nwalkers=10, iterations=12, autoburnin=False, nburn=3),
    ptemcee=dict(nsamples=20, nwalkers=12, ntemps=2, max_iterations=30, check_point_plot=False, min_tau=1, safety=1, burn_in_nact=1,
                 burn_in_fixed_discard=0, mean_logl_frac=1, thin_by_nact=1, frac_threshold=1, autocorr_tol=1, Q_tol=10, Tmax=10, n_check_point=10),
    bilby_mcmc=dict(nsamples=20, ntemps=2, L1steps=2, fixed_tau=2, burn_in_nact=2, thin_by_nact=1, printdt=1, check_point_plot=False,
                    diagnostic=False, proposal_cycle="default"),
    ptmcmcsampler=dict(Niter=2000, burn=1000),
    cpnest=dict(nlive=30, maxmcmc=20),
    nessai=dict(nlive=30, stopping=5, plot=False),
)
NESTED = {"dynesty", "dynesty_resampled", "nestle", "ultranest", "cpnest", "nessai"}
SHAPES = [  # kinds in the order of the prior dictionary
    ["free", "fixed", "free", "con"],
    ["con", "fixed", "free", "free"],
    ["free", "free", "con", "fixed", "free"],
    ["fixed", "free", "free"],
]


def runs(chk):
    names_all = ["q_z", "b_y", "m_x", "a_w", "k_v"]
    weights = [1, 9, 3, 5, 2]
    samplers = ["dynesty", "dynesty_resampled", "nestle", "ultranest", "emcee", "zeus", "kombine", "ptemcee", "bilby_mcmc", "ptmcmcsampler"]
    if THOROUGH:
        samplers += ["cpnest", "nessai"]
    traces, labels = [], []
    for n, name in enumerate(samplers):
        todo = [(SHAPES[(n + k) % 4], bool((n + k) % 2)) for k in range(4 if THOROUGH else 2)]
        for kinds, ratio in todo:
            names = names_all[:len(kinds)]
            free = [x for x, k in zip(names, kinds) if k == "free"]
            cons = [x for x, k in zip(names, kinds) if k == "con"]
            d, lo, hi, fix = {}, [], [], []
            for i, (x, k) in enumerate(zip(names, kinds)):
                d[x] = Uniform(i, i + 2, x) if k == "free" else DeltaFunction(10.5 + i, x) if k == "fixed" else None
                lo.append(2 * i)
                hi.append(2 * (i + 2) - 1)
                fix.append(Cells.cell(10.5 + i))
            mid = sum(d[x].minimum + 1 for x in free)
            for x in cons:
                d[x] = Constraint(-1000, mid + 0.6, x)
            pd = PriorDict({x: d[x] for x in names}, conversion_function=Total(free, cons))
            lk = Cells({x: weights[i] for i, x in enumerate(names) if kinds[i] != "con"}, 7, names)
            np.random.seed(SEED)
            brandom.seed(SEED)
            out = vlib.newdir("s_")
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    r = bilby.run_sampler(lk, pd, sampler=name.split("_resampled")[0], outdir=out, label="run", use_ratio=ratio,
                                          save=False, **OPTIONS[name])
                except Exception:
                    import traceback
                    chk.violation("runs", "run of %s on %s failed: %s" % (name, kinds, traceback.format_exc()[-2500:]))
                    continue
            excluded = lambda p: bool(cons) and not sum(p[x] for x in free) < mid + 0.6
            cells = lambda p: [Cells.cell(p[x]) if k != "con" else 0 for x, k in zip(names, kinds)]
            at = lambda keys: [names.index(k) + 1 for k in keys]
            ev = [dict(k="keys", search=at(r.search_parameter_keys), fixed=at(r.fixed_parameter_keys), cons=at(r.constraint_parameter_keys))]
            step = max(1, len(lk.seen) // 300)
            for p in lk.seen[::step] + lk.seen[-20:]:
                ev.append(dict(k="eval", c=cells(p), excluded=excluded(p)))
            seen = {tuple(p[x] for x in free) for p in lk.seen}
            post = r.posterior
            lps = np.array(post["log_prior"], dtype=float)
            base = -len(free) * math.log(2)
            # ln of one over the allowed volume, common to all rows
            want_lp = base if not cons else None
            step = max(1, len(post) // 200)
            tmp = name in ("ptmcmcsampler", "nessai", "cpnest")     # text or single-precision output
            for j in range(0, len(post), step):
                row = {x: float(post[x].iloc[j]) for x in names if x in post}
                if any(x not in row for x, k in zip(names, kinds) if k != "con"):
                    chk.violation("runs", "posterior of %s lacks parameters: %s" % (name, list(post)))
                    break
                okp = close(lps[j], want_lp, 1e-6, 1e-6) if want_lp is not None else (base - 1e-6 < lps[j] < base + math.log(4) and close(lps[j], lps[0], 1e-6))
                ev.append(dict(k="row", c=cells(row), excluded=excluded(row), logl=int(round(float(post["log_likelihood"].iloc[j]) - 1e-4 * sum(row[x] for x, k in zip(names, kinds) if k != "con"))),
                               logp=bool(okp), seen=bool(tmp or tuple(row[x] for x in free) in seen)))
            try:
                ns = r.nested_samples
            except ValueError:
                ns = None
            if ns is not None and name in NESTED and "log_likelihood" in ns and name not in ("nessai", "cpnest"):
                fixv = {x: 10.5 + names.index(x) for x, k in zip(names, kinds) if k == "fixed"}
                for j in range(0, len(ns), max(1, len(ns) // 100)):
                    row = dict({x: float(ns[x].iloc[j]) for x in free}, **fixv)
                    if excluded(row):
                        continue
                    ev.append(dict(k="nrow", c=cells(row), logl=int(round(float(ns["log_likelihood"].iloc[j]) - 1e-4 * sum(row.values())))))
            mic = lambda v: int(round(1e6 * float(v))) if np.isfinite(v) else 0
            ev.append(dict(k="evid", noise=mic(r.log_noise_evidence), z=mic(r.log_evidence), bf=mic(r.log_bayes_factor), rows=len(post)))
            traces.append(dict(kinds=kinds, w=weights[:len(kinds)], lo=lo, hi=hi, fix=fix, nested=name in NESTED, ratio=ratio, noise=7,
                               haslogl=True, events=ev, sampler=name))
    chk.validate("runs", "SamplerRun", traces, invariants=["Report"])


def run(chk):
    chk.assumptions += ["external samplers are run for a few seconds on a two or three dimensional problem; only the evaluations and results, not their statistical quality, are judged"]
    points(chk)
    runs(chk)
