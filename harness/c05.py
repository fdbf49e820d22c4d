"""C05: saving a result never silently loses an earlier one."""
import os
import shutil
import numpy as np
import pandas as pd
import vlib
from vlib import THOROUGH

bilby = vlib.bilby_quiet()
from bilby.core.prior import PriorDict, Uniform
from bilby.core.result import Result, read_in_result, read_in_result_list
EXT = {"json": ("json", False), "json.gz": ("json", True), "hdf5": ("hdf5", False), "pkl": ("pkl", False)}


def result(label, d, v, bad):
    return Result(label=label, outdir=d, search_parameter_keys=["a", "b"], priors=PriorDict(dict(a=Uniform(0, 9, "a"), b=Uniform(0, 9, "b"))),
                  posterior=pd.DataFrame(dict(a=[1.0 * v, 2.0 * v], b=[0.5, 0.25], log_likelihood=[0.0, 1.0])), num_likelihood_evaluations=v,
                  log_evidence=-1.0 * v, sampler="dynesty", meta_data=dict(v=v, bad={1, 2} if bad else None, tail=list(range(50))))


def version(r, label):
    v = int(r.num_likelihood_evaluations)
    if list(r.posterior["a"]) != [v, 2 * v] or r.log_evidence != -v or r.meta_data["v"] != v or len(r.meta_data["tail"]) != 50 \
            or (label and r.label != label) or len(r.priors) != 2:
        return -2
    return v


def ident(fn):
    tmp = vlib.newdir("r_")
    base = fn[:-4] if fn.endswith(".old") else fn
    t = os.path.join(tmp, os.path.basename(base))
    shutil.copy(fn, t)
    try:
        return version(read_in_result(filename=t), None)
    except Exception:
        return -1
    finally:
        shutil.rmtree(tmp)


def replay(b):
    d = vlib.newdir("dir_")
    known = {}     # file -> (stat, version): unchanged files need not be read again
    try:
        for i, h in enumerate(b["hist"]):
            w = "step %d (%s): " % (i, h["op"])
            if h["op"] == "save":
                ext, gz = EXT[h["e"]]
                r = result(h["l"], d, h["v"], h["bad"])
                kw = dict(extension=True if ext == "json" and i % 2 else "pickle" if ext == "pkl" and i % 2 else ext, gzip=gz)
                if h["over"] or i % 2:
                    kw["overwrite"] = h["over"]
                if h["own"]:
                    kw["filename"] = os.path.join(d, h["name"])
                r.save_to_file(**kw)
            elif h["op"] == "damage":
                fn = os.path.join(d, h["name"])
                s = open(fn, "rb").read()
                open(fn, "wb").write(s[: len(s) // 3])
            elif h["op"] == "remove":
                os.remove(os.path.join(d, h["name"]))
            elif h["op"] == "read":
                ext, gz = EXT[h["e"]]
                try:
                    if h["own"]:
                        r = read_in_result(filename=os.path.join(d, h["name"]))
                    else:
                        r = read_in_result(outdir=d, label=h["l"], extension=ext, gzip=gz)
                    got = version(r, h["l"])
                except Exception:
                    got = 0
                if got != max(h["v"], 0):
                    return w + "reading %s gives version %s, specification %s" % (h["name"], got, h["v"])
            elif h["op"] == "list":
                try:
                    rs = read_in_result_list([os.path.join(d, n) for n in h["names"]], invalid=h["inv"])
                    got = [version(r, None) for r in rs]
                    if h["fails"]:
                        return w + "an unusable file in a list is not reported, %s read" % got
                    if got != h["v"]:
                        return w + "reading the list %s gives %s, specification %s" % (h["names"], got, h["v"])
                except Exception as e:
                    if not h["fails"]:
                        return w + "reading the list %s (%s) failed: %r" % (h["names"], h["inv"], e)
            files = {n for n in os.listdir(d)}
            if files != set(h["f"]):
                return w + "files %s, specification %s" % (sorted(files), sorted(h["f"]))
            for n in files:
                fn = os.path.join(d, n)
                st = (os.stat(fn).st_mtime_ns, os.stat(fn).st_size)
                if known.get(n, (0, 0))[0] != st:
                    known[n] = (st, ident(fn))
                if known[n][1] != h["f"][n]:
                    return w + "%s holds version %s, specification %s" % (n, known[n][1], h["f"][n])
    finally:
        shutil.rmtree(d)


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]


def run(chk):
    inv = ["NothingLost", "NewThere", "Emit"]
    r = chk.tlc("pairs", "ResultDir", constants=dict(Labels={"l"}, K=2), invariants=inv)
    chk.replay_all("pairs", r.emitted, replay)
    r = chk.tlc("triples", "ResultDir", constants=dict(Labels={"l"}, K=3), invariants=inv)
    chk.replay_all("triples", pick(r.emitted, 6000 if THOROUGH else 300), replay)
    r = chk.tlc("histories", "ResultDir", spec="SimSpec", constants=dict(Labels={"l", "m"}, K=14), invariants=inv,
                simulate=2000 if THOROUGH else 120, depth=16)
    chk.replay_all("histories", r.emitted, replay)
