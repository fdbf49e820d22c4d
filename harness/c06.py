"""C06: run_sampler reuses, resumes or recomputes exactly as configured."""
import os
import shutil
import numpy as np
import pandas as pd
import vlib
from vlib import THOROUGH, close
from samplib import bilby, PriorDict, Uniform, DeltaFunction, Constraint, NestedSampler, quick_environment

EXT = dict(json="json", jsongz="json.gz", hdf5="hdf5", pkl="pkl")
STATE = {}


class Boom(Exception):
    pass


class Like(bilby.Likelihood):
    def __init__(self, meta):
        super().__init__(dict(x=0.0, y=0.0, z=0.0))
        self.meta_data = dict(data=np.arange(3) + meta, kind="m%d" % meta)

    def log_likelihood(self):
        return self.parameters["x"] + 10 * self.parameters["y"] + 100 * self.parameters["z"] - 1000

    def noise_log_likelihood(self):
        return -1000.0

    def log_likelihood_ratio(self):
        return self.log_likelihood() + 1000


class MyResult(bilby.core.result.Result):
    pass


class Scripted(NestedSampler):
    default_kwargs = dict(resume=True)

    def run_sampler(self):
        STATE["executions"] += 1
        STATE["resume"] = self.kwargs["resume"]
        if STATE["fail"]:
            raise Boom()
        n = STATE["executions"]
        r = self.result
        r.samples = np.array([[0.125 * n + 0.25 * i + 0.0625 * j for j in range(self.ndim)] for i in range(2)])
        r.log_likelihood_evaluations = np.array([self.log_likelihood(t) for t in r.samples])
        r.log_evidence = 1.0 * n
        r.log_evidence_err = 0.5
        r.num_likelihood_evaluations = n
        r.sampling_time = 7
        return r


def calc(sample, *args):
    out = sample.copy()
    if "y" in sample:
        out["w"] = 2 * sample["y"] + sample.get("w", 0)
    return out


def constraint(sample):
    out = dict(sample)
    if "x" in sample:
        out["c"] = sample["x"]
    return out


def priors(p):
    u = lambda n: Uniform(0, 5, n)
    d = lambda n: DeltaFunction(3.0, n)
    return {"A": lambda: PriorDict(dict(x=u("x"), y=u("y"), z=d("z"))), "B": lambda: PriorDict(dict(x=u("x"), y=u("y"), z=u("z"))),
            "C": lambda: PriorDict(dict(y=u("y"), x=u("x"), z=d("z"))), "D": lambda: PriorDict(dict(x=d("x"), y=u("y"), z=d("z"))),
            "E": lambda: PriorDict(dict(c=Constraint(-1, 4.999, "c"), x=u("x"), y=u("y"), z=d("z")), conversion_function=constraint)}[p]()


def ident(fn, ext):
    """number of the execution stored in a file: 0 absent, -1 unreadable"""
    if not os.path.exists(fn):
        return 0
    tmp = vlib.newdir("r_") + "/x." + ext
    shutil.copy(fn, tmp)
    try:
        r = bilby.read_in_result(filename=tmp)
        return int(r.num_likelihood_evaluations)
    except Exception:
        return -1
    finally:
        shutil.rmtree(os.path.dirname(tmp))


def contents(r, h, where):
    c = h["call"]
    n = h["id"]
    if r.label != c["label"]:
        return "%s: label %s" % (where, r.label)
    if list(r.search_parameter_keys) != h["search"] or list(r.fixed_parameter_keys) != h["fixed"] or list(r.constraint_parameter_keys) != h["con"]:
        return "%s: keys %s %s %s" % (where, r.search_parameter_keys, r.fixed_parameter_keys, r.constraint_parameter_keys)
    lb, lz = (n, n - 1000.0) if h["ratio"] else (n + 1000.0, n)
    if not (close(r.log_bayes_factor, lb) and close(r.log_evidence, lz) and close(r.log_noise_evidence, -1000.0)):
        return "%s: evidence %s, noise %s, Bayes factor %s of execution %d, ratio %s" % (
            where, r.log_evidence, r.log_noise_evidence, r.log_bayes_factor, n, h["ratio"])
    if bool(r.use_ratio) != h["ratio"]:
        return "%s: use_ratio %s" % (where, r.use_ratio)
    t = r.sampling_time
    if (t.total_seconds() if hasattr(t, "total_seconds") else t) != 7:
        return "%s: sampling time %s" % (where, r.sampling_time)
    inj = None if h["conv"] == "none" else dict(x=1.0, y=2.0, z=3.0) if h["conv"] == "inj" else dict(x=1.0, y=2.0, z=3.0, w=4.0) \
        if h["conv"] == "both" else None
    got = r.injection_parameters
    if (got is None) != (inj is None) or (inj and {k: float(v) for k, v in got.items()} != inj):
        return "%s: injection parameters %s, specification %s" % (where, got, inj)
    if list(map(str, r.meta_data["likelihood"]["data"])) != list(map(str, np.arange(3) + (STATE["made"][n]["meta"]))):
        return "%s: metadata of another likelihood" % where
    p = priors(STATE["made"][n]["priors"])
    if list(r.priors.keys()) != list(p.keys()) or any(r.priors[k] != p[k] for k in p):
        return "%s: priors %s" % (where, r.priors)
    post = r.posterior
    if len(post) != 2:
        return "%s: %d posterior samples" % (where, len(post))
    for j, k in enumerate(h["search"]):
        if not close(post[k], [0.125 * n + 0.0625 * j, 0.125 * n + 0.25 + 0.0625 * j]):
            return "%s: samples of %s are %s" % (where, k, list(post[k]))
    for k in h["fixed"]:
        if not close(post[k], [3.0, 3.0]):
            return "%s: fixed %s is %s" % (where, k, list(post[k]))
    ll = post["x"] + 10 * post["y"] + 100 * post["z"] - (0 if h["ratio"] else 1000)
    if not close(post["log_likelihood"], ll):
        return "%s: log likelihood" % where
    if ("w" in post) != (h["conv"] in ("conv", "both")) or ("w" in post and not close(post["w"], 2 * post["y"])):
        return "%s: conversion of the posterior" % where


def replay(b):
    out = vlib.newdir("run_")
    STATE.update(executions=0, made={})
    try:
        for i, h in enumerate(b["hist"]):
            if h["op"] == "damage":
                fn = os.path.join(out, h["label"] + "_result.json")
                s = open(fn).read()
                open(fn, "w").write(s[: len(s) // 2])
                continue
            c = h["call"]
            like, pri = Like(c["meta"]), priors(c["priors"])
            STATE["fail"] = c["fail"]
            n0 = STATE["executions"]
            inj = dict(x=1.0, y=2.0, z=3.0) if c["extra"] in ("inj", "both") else None
            conv = calc if c["extra"] in ("conv", "both") else None
            save = {"true": True, "no": False}.get(c["save"], c["save"])
            kw = dict(likelihood=like, priors=pri, label=c["label"], outdir=out, use_ratio=c["ratio"], injection_parameters=inj,
                      conversion_function=conv, save=save, result_class=MyResult if c["ratio"] else None, gzip=c["gzip"], clean={"none": None, "true": True, "false": False}[c["clean"]])
            STATE["made"][n0 + 1] = c
            r = None
            try:
                r = bilby.run_sampler(sampler=Scripted, skip_import_verification=True, **kw)
            except Boom:
                if h["op"] != "failed":
                    return "step %d: the sampler was run, the stored result should have been used" % i
            if h["op"] == "failed" and r is not None:
                return "step %d: the sampler was not run, execution %s was used" % (i, r.num_likelihood_evaluations)
            ran = STATE["executions"] - n0
            if h["op"] == "call":
                if ran != int(h["fresh"]):
                    return "step %d: the sampler was run %d times, specification %d" % (i, ran, h["fresh"])
                if int(r.num_likelihood_evaluations) != h["id"]:
                    return "step %d: the result of execution %s, specification %s" % (i, r.num_likelihood_evaluations, h["id"])
                if type(r) is not (MyResult if c["ratio"] else bilby.core.result.Result):
                    return "step %d: the result is a %s" % (i, type(r))
                e = contents(r, h, "step %d: returned result" % i)
                if e:
                    return e
            if ran and STATE["resume"] != h["resume"]:
                return "step %d: the sampler was run with resume=%s" % (i, STATE["resume"])
            for lab, files in h["disk"].items():
                for ext, n in files.items():
                    for suffix, want in (("", n), (".old", h["old"][lab][ext])):
                        fn = os.path.join(out, "%s_result.%s%s" % (lab, EXT[ext], suffix))
                        got = ident(fn, EXT[ext])
                        if got != want:
                            return "step %d: %s holds execution %s, specification %s" % (i, os.path.basename(fn), got, want)
            if h["op"] == "call" and c["save"] != "no":
                ext = "json.gz" if c["gzip"] and c["save"] in ("true", "json") else {"true": "json", "pickle": "pkl"}.get(c["save"], c["save"])
                e = contents(bilby.read_in_result(filename=os.path.join(out, "%s_result.%s" % (c["label"], ext))), h, "step %d: stored result" % i)
                if e:
                    return e
            if command_line_clean():
                return "step %d: the clean option stays set after the call" % i
    finally:
        shutil.rmtree(out)


def command_line_clean():
    from bilby.core.utils import command_line_args
    return bool(command_line_args.clean)


def run(chk):
    quick_environment()
    inv = ["Kept", "OtherLabels", "CleanRuns", "ReuseMatches", "Emit"]
    P, M = {"A", "B", "C", "D", "E"}, {1, 2}
    common = dict(Labels={"l"}, PriorSets=P, Metas=M, Saves={"true"}, Cleans={"none", "true", "false"}, Extras={"none"}, K=2, Damage=True)
    r = chk.tlc("settings", "RunSampler", constants=common, invariants=inv)
    chk.replay_all("settings", r.emitted if THOROUGH else pick(r.emitted, 160), replay)
    r = chk.tlc("formats", "RunSampler", constants=dict(common, PriorSets={"A"}, Metas={1}, Saves={"true", "no", "hdf5", "pkl", "pickle"},
                                                      Extras={"none", "both"}, Cleans={"none", "true"}, K=2, Damage=False), invariants=inv)
    chk.replay_all("formats", r.emitted if THOROUGH else pick(r.emitted, 80), replay)
    r = chk.tlc("histories", "RunSampler", spec="SimSpec", invariants=inv, simulate=1500 if THOROUGH else 40, depth=11,
                constants=dict(common, Labels={"l", "m"}, Saves={"true", "no", "json", "hdf5", "pkl", "pickle"}, Extras={"none", "inj", "conv", "both"}, K=8))
    chk.replay_all("histories", r.emitted, replay)


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]
