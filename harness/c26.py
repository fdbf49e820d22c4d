"""C26: posteriors on a grid marginalise consistently."""
import os
import itertools
import numpy as np
import vlib
from vlib import THOROUGH, newdir

bilby = vlib.bilby_quiet()
from bilby.core.grid import Grid
from bilby.core.likelihood import Likelihood
from bilby.core.prior import PriorDict, Uniform

W = 12


class Toy(Likelihood):
    def __init__(self, g):
        super().__init__(dict())
        self.g = g
        self.calls = 0

    def log_likelihood(self):
        self.calls += 1
        g = self.g
        x = [self.parameters[n] for n in g["names"]]
        v = g["off"] + sum(c * q for c, q in zip(g["coef"], x)) + (x[0] * x[1] if len(x) >= 2 else 0)
        v = int(round(v))
        if g["zero"] and v % 3 == 0:
            v = 0
        with np.errstate(divide="ignore"):
            return float(np.log(abs(v)))

    def noise_log_likelihood(self):
        return -2.25


def table(h, ndim):
    """The integers of the specification as an array of logarithms."""
    shape = [0] * len(h["left"])
    for t, v in h["arr"]:
        shape = [max(a, b) for a, b in zip(shape, t)]
    a = np.zeros(shape)
    for t, v in h["arr"]:
        a[tuple(i - 1 for i in t)] = v
    a /= h["scale"]
    if h["kind"] != "like":
        a /= float(W) ** ndim
    with np.errstate(divide="ignore"):
        return np.log(a)


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(np.exp(a), np.exp(b), rtol=1e-9, atol=1e-12)


def points(g, n):
    """The points in the way they can be given."""
    p = g["pts"]
    names = g["names"]
    even = [len(q) > 1 and q == [W * i / (len(q) - 1) for i in range(len(q))] for q in p]
    forms = ["dict", "list", "lists"]
    if any(even) or all(len(q) == 1 for q in p):
        forms += ["counts", "countlist"]
    if all(even) and len({len(q) for q in p}) == 1:
        forms.append("int")
    form = forms[n % len(forms)]
    arr = [np.array(q, float) for q in p]
    if form == "dict":
        return dict(zip(reversed(names), reversed(arr)))
    if form == "list":
        return arr
    if form == "lists":
        return [list(q) for q in p]
    if form == "int":
        return len(p[0])
    mixed = [len(q) if e else a for q, a, e in zip(p, arr, even)]
    return dict(zip(names, mixed)) if form == "counts" else mixed


def same(grid, new, w):
    if new.parameter_names != grid.parameter_names or new.n_dims != grid.n_dims or list(new.priors) != list(grid.priors):
        return w + "the parameters %s were read as %s" % (grid.parameter_names, new.parameter_names)
    if new.priors != grid.priors:
        return w + "the priors are different after reading"
    for n in grid.parameter_names:
        if not np.array_equal(grid.sample_points[n], new.sample_points[n]):
            return w + "the points of %s were read as %s instead of %s" % (n, new.sample_points[n], grid.sample_points[n])
    for q in ("ln_likelihood", "ln_prior", "ln_posterior", "ln_evidence", "ln_noise_evidence"):
        if not np.array_equal(getattr(grid, q), getattr(new, q), equal_nan=True):
            return w + "%s was read as %s instead of %s" % (q, getattr(new, q), getattr(grid, q))


SERIAL = itertools.count()


def replay(b):
    n = next(SERIAL)
    g = b["hist"][0]["g"]
    names = g["names"]
    like = Toy(g)
    priors = {q: Uniform(0, W) for q in names}
    given = points(g, n)
    d = newdir("grid_")
    saving = n % 3 == 0
    grid = Grid(like, PriorDict(priors) if n % 2 else priors, given, save=saving, label="at_once", outdir=d, gzip=n % 2 == 0)
    if grid.parameter_names != names:
        return "the parameters are %s instead of %s" % (grid.parameter_names, names)
    w0 = "%s given as %s: " % (g, type(given).__name__)
    for q, p in zip(names, g["pts"]):
        if not np.allclose(grid.sample_points[q], p):
            return w0 + "points %s of %s" % (grid.sample_points[q], q)
    if saving:
        bad = same(grid, Grid.read(outdir=d, label="at_once", gzip=n % 2 == 0), w0 + "saved at once: ")
        if bad:
            return bad
    order = []
    for k, h in enumerate(b["hist"]):
        w = w0 + "step %d of %s: " % (k, [(q["op"], q["x"]) for q in b["hist"]])
        op = h["op"]
        if op in ("init", "full"):
            order = []
        elif op == "marg":
            order.append(h["x"])
        elif op == "store":
            x = h["x"]
            kw = dict(json=dict(filename=os.path.join(d, "f.json")), gz=dict(filename=os.path.join(d, "f.json.gz")),
                      label=dict(outdir=d), labelgz=dict(outdir=d, gzip=True))[x]
            if x.startswith("label"):
                grid.label = "lab"
            fn = kw.get("filename") or os.path.join(d, "lab_grid.json" + (".gz" if x == "labelgz" else ""))
            old = open(fn, "rb").read() if os.path.exists(fn) else None
            grid.save_to_file(overwrite=bool(k % 2), **kw)
            if old is not None and not k % 2 and open(fn + ".old", "rb").read() != old:
                return w + "the earlier file is not kept"
            new = Grid.read(filename=fn) if "filename" in kw else Grid.read(outdir=d, label="lab", gzip=x == "labelgz")
            bad = same(grid, new, w)
            if bad:
                return bad
            new.likelihood = grid.likelihood
            grid = new
        want = table(h, len(names))
        full = dict(like=grid.ln_likelihood, post=grid.ln_posterior, prior=grid.ln_prior)[h["kind"]]
        before = full.copy()
        left = list(h["left"])
        calls = []
        if not order:
            calls += [dict(parameters=[]), dict(not_parameters=list(names)), dict(not_parameters=list(reversed(names)))]
        else:
            calls += [dict(parameters=list(order)), dict(not_parameters=list(reversed(left)))]
            if len(order) == 1:
                calls.append(dict(parameters=order[0]))
            if len(left) == 1:
                calls.append(dict(not_parameters=left[0]))
            if not left:
                calls.append(dict())
        for c in calls:
            keep = {q: list(v) if isinstance(v, list) else v for q, v in c.items()}
            outs = [grid.marginalize(full, **c)]
            if h["kind"] == "like":
                outs.append(grid.marginalize_ln_likelihood(**c))
            elif h["kind"] == "post":
                outs.append(grid.marginalize_ln_posterior(**c))
            for o in outs:
                if not close(o, want):
                    return w + "%s over %s gives %s instead of %s" % (h["kind"], c, np.exp(o).tolist(), np.exp(want).tolist())
            if np.max(want) > -np.inf and h["kind"] != "prior":
                o = (grid.marginalize_likelihood if h["kind"] == "like" else grid.marginalize_posterior)(**c)
                if np.shape(o) != np.shape(want) or not np.allclose(o, np.exp(want - np.max(want)), rtol=1e-9, atol=1e-12):
                    return w + "normalised %s over %s gives %s instead of %s" % (h["kind"], c, o, np.exp(want - np.max(want)))
            if c != keep:
                return w + "the list of the caller is changed from %s to %s" % (keep, c)
        if not np.array_equal(full, before) or not np.array_equal(
                dict(like=grid.ln_likelihood, post=grid.ln_posterior, prior=grid.ln_prior)[h["kind"]], before):
            return w + "the values of the grid are changed by marginalising"
        if h["kind"] == "post" and not left and not (close(grid.ln_evidence, want) and close(grid.log_evidence, want)):
            return w + "evidence %s instead of %s" % (grid.ln_evidence, want)
        if grid.ln_noise_evidence != -2.25 or grid.log_noise_evidence != -2.25:
            return w + "noise evidence %s" % grid.ln_noise_evidence
        if h["kind"] == "prior" and not np.allclose(grid.prior, np.exp(grid.ln_prior)):
            return w + "prior %s" % grid.prior


def grids(sets, seed=0):
    r = np.random.RandomState(seed)
    out = []
    for names, pts in sets:
        for zero in (False, True):
            coef = [int(c) for c in r.choice([1, 2, 3, 5, 7, 11, -4], len(names), replace=False)]
            out.append(dict(names=tuple(names), pts=tuple(tuple(p) for p in pts), coef=tuple(coef), off=int(r.randint(1, 60)), zero=zero))
    return out


class Fset(set):
    pass


SETS = [("a", [(0, 6, 12)]), ("b", [(3,)]), ("ba", [(0, 4, 8, 12), (0, 12)]), ("ab", [(1, 2, 7), (-3, 5, 9, 14)]), ("cb", [(5,), (0, 3, 4)]),
        ("zay", [(0, 6, 12), (0, 6, 12), (0, 6, 12)]), ("cab", [(0, 12), (2,), (1, 3, 4)]), ("acb", [(0, 1), (0, 3, 6, 9, 12), (11, 13)]),
        ("ab", [(5,), (7,)])]
MORE = [("ybza", [(0, 12), (0, 5, 6), (4,), (0, 6, 12)]), ("dcba", [(0, 12), (0, 12), (0, 12), (0, 12)]), ("ba", [(0, 1, 2, 4, 8, 12), (-2, 3)]),
        ("qp", [(13, 15), (0, 1, 7)])]


def run(chk):
    inv = ["Order", "Axes", "Emit"]
    gs = grids(SETS, vlib.SEED)
    r = chk.tlc("orders", "GridMarginal", constants=dict(Grids=vlib.raw("{%s}" % ", ".join(vlib.tla_value(g) for g in gs)),
                Kinds={"like", "post", "prior"}, K=4), invariants=inv)
    chk.replay_all("orders", r.emitted if THOROUGH else pick(r.emitted, 450), replay)
    gs = grids(SETS + MORE, vlib.SEED + 1)
    r = chk.tlc("histories", "GridMarginal", spec="SimSpec", constants=dict(Grids=vlib.raw("{%s}" % ", ".join(vlib.tla_value(g) for g in gs)),
                Kinds={"like", "post", "prior"}, K=9), invariants=inv, simulate=2000 if THOROUGH else 120, depth=10)
    chk.replay_all("histories", r.emitted, replay)


def pick(seq, n):
    rs = np.random.RandomState(vlib.SEED)
    return [seq[i] for i in sorted(rs.choice(len(seq), min(n, len(seq)), replace=False))]
