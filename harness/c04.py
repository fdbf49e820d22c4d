"""C04: saving and loading a result preserves it in every format."""
import datetime
import math
import os
import pathlib
import shutil
import numpy as np
import pandas as pd
import vlib
from vlib import THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core.prior import PriorDict, Uniform, DeltaFunction, Constraint, Sine, Interped, LogUniform
from bilby.core.result import Result, read_in_result
from bilby.core.utils import create_time_series

V = dict(none=None, bool=True, npbool=np.True_, int=7, npint=np.int64(7), npint32=np.int32(7), float=1.5, npfloat=np.float64(1.5),
         npfloat32=np.float32(1.5), nan=math.nan, inf=-math.inf, str="abc", unistr="Å é", estr="", complex=1 + 2j, npcomplex=np.complex128(1 + 2j),
         npc64=np.complex64(1 + 2j), arrf=np.array([1.5, 2.5]), arri=np.array([1, 2]), arri2=np.array([[1, 2], [3, 4]]), arrb=np.array([True, False]),
         arrs=np.array(["a", "bc"]), arrc=np.array([1 + 2j, 3]), arr2=np.array([[1.25, 2], [3, 4]]), arr0=np.array([]), arrnan=np.array([1.5, np.nan]),
         list_i=[1, 2], list_f=[1.5, 2.5], list_s=["a", "bc"], list_u=["é", "a"], list_0=[], list_n=["a", None], list_b=[True, False],
         list_l=[[1, 2], [3, 4]], df=pd.DataFrame(dict(a=[1.5, 2.5], b=[1, 2])), series=pd.Series([1.5, 2.5], index=["u", "v"]),
         td=datetime.timedelta(days=2, seconds=3, microseconds=4), func=create_time_series, cls=Uniform, prior=Uniform(0, 1, "a"))
KINDS = sorted(k for k in V if k not in ("arri2",))
ARRAYS = {k for k in V if k.startswith("arr")}
EXT = dict(json="json", jsongz="json", hdf5="hdf5", pkl="pkl")
FILE = dict(json="json", jsongz="json.gz", hdf5="hdf5", pkl="pkl")


def build(t):
    if t["k"] == "dict":
        return {k: build(c) for k, c in zip(t["keys"], t["c"])}
    if t["k"] in ("tuple", "list"):
        return (tuple if t["k"] == "tuple" else list)(build(c) for c in t["c"])
    v = V[t["k"]]
    return v.copy() if hasattr(v, "copy") else v


def differs(t, x, ordered):
    """None or the way in which the value differs from the tree"""
    k = t["k"]
    if k == "dict":
        if not isinstance(x, dict) or set(x) != set(t["keys"]) or (ordered and list(x) != list(t["keys"])):
            return "%r instead of a dictionary of %s" % (x, t["keys"])
        for n, c in zip(t["keys"], t["c"]):
            e = differs(c, x[n], ordered)
            if e:
                return "[%s] %s" % (n, e)
        return
    if k in ("tuple", "list"):
        if type(x) is not (tuple if k == "tuple" else list) or len(x) != len(t["c"]):
            return "%r instead of a %s of %d" % (x, k, len(t["c"]))
        for i, c in enumerate(t["c"]):
            e = differs(c, x[i], ordered)
            if e:
                return "[%d] %s" % (i, e)
        return
    bad = "%r (%s) instead of %s" % (x, type(x).__name__, k)
    if k.startswith("s_"):
        return None if x == str(V[k[2:]]) else bad
    if k == "tds":
        return None if isinstance(x, float) and abs(x - V["td"].total_seconds()) < 1e-6 else bad
    v = V[k]
    if k in ARRAYS:
        if not isinstance(x, np.ndarray) or x.shape != v.shape or x.dtype.kind != v.dtype.kind:
            return bad
        return None if np.array_equal(x, v, equal_nan=x.dtype.kind == "f") else bad
    if k == "none":
        return None if x is None else bad
    if k == "bool" or k == "npbool":
        return None if isinstance(x, (bool, np.bool_)) and bool(x) else bad
    if isinstance(v, (int, np.integer)):
        return None if isinstance(x, (int, np.integer)) and not isinstance(x, bool) and x == v else bad
    if isinstance(v, (float, np.floating)):
        return None if isinstance(x, (float, np.floating)) and (x == v or (k == "nan" and math.isnan(x))) else bad
    if isinstance(v, (complex, np.complexfloating)):
        return None if isinstance(x, (complex, np.complexfloating)) and x == v else bad
    if k == "df":
        return None if isinstance(x, pd.DataFrame) and x.equals(v) else bad
    if k == "series":
        return None if isinstance(x, pd.Series) and x.equals(v) else bad
    if k in ("func", "cls"):
        return None if x is v else bad
    return None if type(x) is type(v) and x == v else bad


GRID = np.linspace(0, 1, 5)


def priors():
    return PriorDict(dict(zz=Uniform(0, 2, "zz", latex_label="$z$", unit="s", boundary="periodic"), b=DeltaFunction(2.5, "b"), m=Sine(name="m"),
                          i=Interped(GRID, GRID + 1, name="i"), a=LogUniform(1, 10, "a"), q=Constraint(0, 5, "q")))


def result(val, d, n):
    rs = np.random.RandomState(n)
    search = ["zz", "m", "i", "a"]
    samples = rs.uniform(size=(3, 4))
    post = pd.DataFrame({k: samples[:, j] for j, k in enumerate(search)})
    post["b"], post["log_likelihood"], post["count"], post["cplx"] = 2.5, rs.normal(size=3), [3, 1, 2], rs.normal(size=3) + 1j
    kw = dict(label="lab", outdir=d, sampler="dynesty", search_parameter_keys=search, fixed_parameter_keys=["b"], constraint_parameter_keys=["q"],
              priors=priors(), sampler_kwargs=dict(slot=build(val["skw"]), nlive=10), injection_parameters=dict(slot=build(val["inj"]), zz=1.0, a=2.0),
              meta_data=dict(slot=build(val["meta"]), other=dict(deep=dict(name="x"))), posterior=post, samples=samples,
              nested_samples=pd.DataFrame(dict(zz=[1.5, 2.5], log_likelihood=[-1.0, -2.0])), log_evidence=-12.25, log_evidence_err=0.125,
              information_gain=3.5, log_noise_evidence=-100.5, log_bayes_factor=88.25, log_likelihood_evaluations=rs.normal(size=3),
              log_prior_evaluations=rs.normal(size=3), num_likelihood_evaluations=1234, walkers=rs.normal(size=(2, 3, 4)), nburn=5,
              sampling_time=86412.5, use_ratio=bool(n % 2), version="bilby=1")
    drop = [[], ["nested_samples"], ["walkers", "nburn"], ["injection_parameters"], ["log_evidence", "log_noise_evidence"], ["samples", "log_prior_evaluations"]][n % 6]
    for k in drop:
        kw.pop(k)
    return Result(**kw), kw


def seconds(t):
    return t.total_seconds() if hasattr(t, "total_seconds") else t


def compare(r, kw, h, ordered):
    for slot, attr in (("meta", "meta_data"), ("inj", "injection_parameters"), ("skw", "sampler_kwargs")):
        got = getattr(r, attr)
        if attr not in kw:
            if got is not None:
                return "%s is %r" % (attr, got)
            continue
        e = differs(h["val"][slot], got.get("slot", "missing"), ordered)
        if e:
            return "%s: %s" % (attr, e)
        want = list(kw[attr])
        if set(got) != set(want) or (ordered and list(got) != want):
            return "%s has the keys %s, not %s" % (attr, list(got), want)
    if r.meta_data["other"]["deep"]["name"] != "x":
        return "nested metadata"
    if kw.get("injection_parameters") and (r.injection_parameters["zz"], r.injection_parameters["a"]) != (1.0, 2.0):
        return "injection parameters %s" % r.injection_parameters
    for k in ("label", "sampler", "log_evidence", "log_evidence_err", "information_gain", "log_noise_evidence", "log_bayes_factor",
              "num_likelihood_evaluations", "use_ratio", "version"):
        want = kw.get(k, math.nan)
        got = getattr(r, k)
        if not (got == want or (want != want and got != got)) or isinstance(got, (bytes, list)):
            return "%s is %r, not %r" % (k, got, want)
    if os.path.realpath(r.outdir) != os.path.realpath(kw["outdir"]):
        return "outdir %s" % r.outdir
    for k in ("search_parameter_keys", "fixed_parameter_keys", "constraint_parameter_keys"):
        if list(getattr(r, k)) != kw[k]:
            return "%s is %s" % (k, getattr(r, k))
    if list(r.parameter_labels) != [kw["priors"][k].latex_label for k in r.search_parameter_keys] \
            or list(r.parameter_labels_with_unit) != [kw["priors"][k].latex_label_with_unit for k in r.search_parameter_keys]:
        return "parameter labels %s" % r.parameter_labels
    if abs(seconds(r.sampling_time) - kw["sampling_time"]) > 1e-5:
        return "sampling time %s" % r.sampling_time
    for k in ("samples", "log_likelihood_evaluations", "log_prior_evaluations", "walkers", "nburn"):
        try:
            got = getattr(r, k)
        except ValueError:
            got = None
        if (got is None) != (k not in kw) or (k in kw and not np.array_equal(np.asarray(got), np.asarray(kw[k]))):
            return "%s is %r" % (k, got)
    for k in ("posterior", "nested_samples"):
        try:
            got = getattr(r, k)
        except ValueError:
            got = None
        if k not in kw:
            if got is not None:
                return "%s appeared" % k
            continue
        w = kw[k]
        if set(got) != set(w) or (ordered and list(got) != list(w)) or len(got) != len(w):
            return "%s has the columns %s, not %s" % (k, list(got), list(w))
        for c in w:
            if not np.array_equal(np.asarray(got[c]), np.asarray(w[c])) or np.asarray(got[c]).dtype.kind != np.asarray(w[c]).dtype.kind:
                return "%s[%s] is %s (%s)" % (k, c, list(got[c]), got[c].dtype)
    p, q = r.priors, PRIORS
    if list(p) != list(q):
        return "priors %s" % list(p)
    for k in q:
        if type(p[k]) is not type(q[k]) or p[k] != q[k] or p[k].boundary != q[k].boundary or p[k].unit != q[k].unit or p[k].latex_label != q[k].latex_label:
            return "prior %s is %r, not %r" % (k, p[k], q[k])


COUNT = [0]
PRIORS = priors()


def replay(b):
    COUNT[0] += 1
    n = COUNT[0]
    d = vlib.newdir("io_")
    try:
        r, kw = result(b["hist"][0]["val"], d, n)
        e = compare(r, kw, b["hist"][0], True)
        if e:
            return "before saving: %s" % e
        ordered = True
        for i, h in enumerate(b["hist"][1:], 1):
            f = h["f"]
            gz = f == "jsongz"
            before = [repr(r.sampler_kwargs), repr(r.injection_parameters), repr(r.meta_data)]
            default = os.path.join(d, "lab_result." + FILE[f])
            fn = os.path.join(d, "x%d.%s" % (i, FILE[f])) if h["mode"] == "file" else default
            r.save_to_file(extension=(True if f == "json" and n % 2 else "pickle" if f == "pkl" and n % 2 else EXT[f]), gzip=gz, overwrite=True,
                           filename=fn if h["mode"] == "file" else None)
            if [repr(r.sampler_kwargs), repr(r.injection_parameters), repr(r.meta_data)] != before:
                return "hop %d: saving as %s changed the result" % (i, f)
            if not h["ok"]:
                if os.path.exists(fn):
                    return "hop %d: %s was written although %s cannot hold the result" % (i, os.path.basename(fn), f)
                fn = fn[:-len(fn.split(".")[-1]) - 1] + ".pkl"
                r = read_in_result(filename=fn)
            elif h["mode"] == "file":
                r = read_in_result(filename=pathlib.Path(fn) if n % 3 == 0 else fn)
            else:
                if bilby.core.result.result_file_name(d, "lab", EXT[f], gz) != default or not os.path.exists(default):
                    return "hop %d: file name %s" % (i, bilby.core.result.result_file_name(d, "lab", EXT[f], gz))
                r = read_in_result(outdir=d, label="lab", extension="pickle" if f == "pkl" and n % 2 else EXT[f], gzip=gz)
            ordered = ordered and h["ordered"]
            e = compare(r, kw, h, ordered)
            if e:
                return "hop %d (%s): %s" % (i, f, e)
    finally:
        shutil.rmtree(d)


def run(chk):
    inv = ["Idempotent", "PickleExact", "Emit"]
    F = {"json", "jsongz", "hdf5", "pkl"}
    r = chk.tlc("leaves", "ResultIO", constants=dict(Kinds=set(KINDS), K=3 if THOROUGH else 2, MaxD=0, Formats=F if THOROUGH else F - {"jsongz"}), invariants=inv)
    chk.replay_all("leaves", r.emitted, replay)
    r = chk.tlc("trees", "ResultIO", spec="SimSpec", invariants=inv, simulate=5000 if THOROUGH else 150, depth=7,
                constants=dict(Kinds=set(KINDS), K=4, MaxD=3, Formats=F))
    chk.replay_all("trees", r.emitted, replay)
