"""C07: combining results pools evidence and samples consistently."""
import copy
import os
import shutil
import numpy as np
import vlib
from vlib import THOROUGH, newdir
bilby = vlib.bilby_quiet()
import pandas as pd
from bilby.core.prior import PriorDict, Uniform, Normal
from bilby.core.result import Result, ResultList, ResultListError, read_in_result_list

PRI = dict(a=dict(x=Uniform(0, 1), y=Uniform(0, 1), w=Normal(0, 1)), b=dict(x=Uniform(0, 1), y=Uniform(0, 2), w=Normal(0, 1)),
           more=dict(x=Uniform(0, 1), y=Uniform(0, 1), w=Normal(0, 1), z=Uniform(0, 1)), less=dict(x=Uniform(0, 1), y=Uniform(0, 1)))
M = 120


def make(r, i):
    n = r["n"] * M
    df = pd.DataFrame(dict(x=np.arange(n) + 1000.0 * i, y=np.arange(n) * 1.0, log_likelihood=-np.arange(n) * 1.0, log_prior=0.0 * np.arange(n)))
    nested = df.assign(weights=1 / n) if r["kind"] == "nested" else None
    noise = [np.nan, -7.0, -7.5][r["noise"]]
    ev = np.log(r["ev"]) - 1000.0
    return Result(label="r%d" % i, outdir=".", sampler={"nested": "dynesty", "nested_lost": "dynesty"}.get(r["kind"], r["kind"]), search_parameter_keys=["x", "y"] if r["par"] == "xy" else ["x"],
                  priors=PriorDict(dict(PRI[r["pri"]])), posterior=df, nested_samples=nested, log_evidence=ev, log_noise_evidence=noise,
                  log_bayes_factor=ev - noise, log_evidence_err=0.5 * np.log(r["err"]) if r["err"] else [np.nan, np.inf][i % 2], sampler_kwargs=dict(a=1), meta_data=dict(i=i))


FIELDS = ["label", "outdir", "sampler", "search_parameter_keys", "log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor", "sampler_kwargs", "meta_data"]


def snap(r):
    d = {k: copy.deepcopy(getattr(r, k)) for k in FIELDS}
    d["posterior"] = r.posterior.copy()
    d["nested"] = None if r._nested_samples is None else r.nested_samples.copy()
    d["priors"] = {k: repr(v) for k, v in r.priors.items()}
    return d


def differs(a, b):
    for k in a:
        if isinstance(a[k], pd.DataFrame):
            if b[k] is None or not a[k].equals(b[k]):
                return k
        elif isinstance(a[k], float):
            if not (a[k] == b[k] or (np.isnan(a[k]) and np.isnan(b[k]))):
                return k
        elif a[k] != b[k]:
            return k


def replay(b):
    results = [make(r, i) for i, r in enumerate(b["rs"])]
    d = newdir("cb_")
    try:
        form = sum(r["n"] for r in b["rs"]) % 3
        if form == 0:
            lst = ResultList(results)
        elif form == 1:
            lst = ResultList()
            for r in results:
                lst.append(r)
        else:
            # from files
            names = []
            for r in results:
                fn = os.path.join(d, r.label + "_result.json")
                r.save_to_file(filename=fn, extension="json")
                names.append(fn)
            lst = read_in_result_list(names, invalid="error")
        before = [snap(r) for r in lst]
        o = b["out"]
        bilby.core.utils.random.seed(11)
        try:
            c = lst.combine(shuffle=b["shuffle"], consistency_level=b["level"])
        except ResultListError as e:
            if not o["refused"]:
                return "a combination is refused: %s" % e
            c = None
        for i, r in enumerate(lst):
            k = differs(before[i], snap(r))
            if k:
                return "an input result was modified: %s" % k
        if o["refused"]:
            return None if c is None else "an inconsistent combination is not refused"
        if o["how"] == "empty":
            return None if c._posterior is None else "combining nothing gives a posterior"
        if any(c is r for r in lst):
            return "one of the inputs is returned"
        if o["how"] == "copy":
            k = differs(before[0], snap(c))
            return "the combination of one result differs in %s" % k if k else None
        p = c.posterior
        if o["how"] in ("nested", "mcmc"):
            ev = np.log(o["num"] / o["den"]) - 1000.0
            noise = before[0]["log_noise_evidence"]
            if not np.isclose(c.log_evidence, ev, rtol=0, atol=1e-9):
                return "the evidence is %s instead of %s" % (c.log_evidence, ev)
            if not np.isclose(c.log_bayes_factor, ev - noise, rtol=0, atol=1e-9, equal_nan=True):
                return "the Bayes factor is not that of the evidences"
            err = 0.5 * np.log(o["enum"] / o["den"]) if o["enum"] else np.nan
            if not np.isclose(c.log_evidence_err, err, rtol=0, atol=1e-9, equal_nan=True):
                return "the error of the evidence is %s instead of %s" % (c.log_evidence_err, err)
        if c._nested_samples is not None:
            return "the combined result has the nested samples of one of the inputs"
        if not np.isclose(c.log_noise_evidence, before[0]["log_noise_evidence"], equal_nan=True):
            return "the noise evidence has changed"
        if c.label != "r0_combined":
            return "the label is %s" % c.label
        if list(p.index) != list(range(len(p))) and not b["shuffle"]:
            return "the index of the samples is not counted from zero"
        got = 0
        order = [int(v // 1000) for v in p["x"]]
        if not b["shuffle"] and order != sorted(order):
            return "samples of different inputs are mixed"
        for i, r in enumerate(before):
            mine = p[[q == i for q in order]]
            got += len(mine)
            num = (mine["x"] - 1000 * i).astype(int).tolist()
            if len(set(num)) != len(num):
                return "a sample occurs twice"
            if not b["shuffle"] and num != sorted(num):
                return "the samples are out of order"
            src = r["posterior"].iloc[num].reset_index(drop=True)
            if list(src.columns) != list(mine.columns) or not src.equals(mine.reset_index(drop=True)):
                return "samples were altered"
            n = len(r["posterior"])
            frac = o["keep"][i] / o["max"] if o["how"] == "nested" else 1
            if abs(len(num) - n * frac) > 6 * np.sqrt(n * frac * (1 - frac)):
                return "%d of %d samples of a result with relative evidence %s were taken" % (len(num), n, frac)
        if got != len(p):
            return "samples of unknown origin"
        if b["shuffle"] and len(p) > 50 and order == sorted(order) and list(p["x"]) == sorted(p["x"]):
            return "the samples are not shuffled"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    inv = ["Between", "SameForAnyOrder", "Emit"]
    r = chk.tlc("pairs", "Combine", constants=dict(MaxLen=1, Full=False), invariants=inv)
    chk.replay_all("single", r.emitted, replay)
    r = chk.tlc("lists", "Combine", spec="SimSpec", constants=dict(MaxLen=4, Full=True), invariants=inv, simulate=6000 if THOROUGH else 700, depth=5)
    chk.replay_all("lists", r.emitted, replay)
