"""C18: a chain returns what was appended, burned-in and thinned as stated."""
import numpy as np
import vlib
from vlib import close, THOROUGH

bilby = vlib.bilby_quiet()
from bilby.bilby_mcmc.chain import Chain, Sample
from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY

COLS = ["a", "b", LOGLKEY, LOGPKEY]


def row(n):
    return [float(n), 1000.0 + n, float((n * 37) % 101 - 50), -float(n % 7)]


def sample(n):
    return Sample(dict(zip(COLS, row(n))))


def replay(b):
    T, burn, thin2, fd, c, block = b["cfg"]
    ch = Chain(sample(1), burn_in_nact=burn, thin_by_nact=thin2 / 2, fixed_discard=fd, autocorr_c=c, fixed_tau=T,
               block_length=block)
    nxt = 2
    for i, s in enumerate(b["hist"]):
        op, a, res, o = s["op"], s["arg"], s["res"], s["obs"]
        where = "step %d %s(%s): " % (i, op, a)
        if op == "append":
            for _ in range(a):
                ch.append(sample(nxt))
                nxt += 1
        elif op == "repeat":
            ch.append(ch.current_sample)
        elif op == "replace":
            try:
                ch[a] = sample(nxt)
                ok = 1
            except Exception:
                ok = 0
            nxt += 1
            if ok != res:
                return where + ("accepted" if ok else "refused")
        elif op == "get":
            try:
                got = ch[a].list
            except Exception:
                got = None
            if (got is None) != (res == -1) or (got is not None and got != row(res)):
                return where + "returned %s, specification point %s" % (got, res)
        elif op == "samples":
            df = ch.samples
            want = [row(n) for n in res]
            if list(df.columns) != COLS or not (len(df) == len(want) and (len(df) == 0 or close(df.values, want))):
                return where + "returned points %s, specification %s" % (list(df["a"]), res)
        elif op == "set_proposal":
            ch.minimum_index_proposal = a
        elif op == "set_adapt":
            ch.minimum_index_adapt = a
        else:
            got = getattr(ch, op)
            want = np.inf if (op == "tau" and res == -1) else res
            if got != want:
                return where + "returned %s, specification %s" % (got, want)
        # what every state shows
        pts = o["pts"]
        if ch.position != o["pos"]:
            return where + "position %s, specification %s" % (ch.position, o["pos"])
        cur = ch.current_sample
        if cur.list != row(o["cur"]):
            return where + "current point %s, specification point %s" % (cur.list, o["cur"])
        cur["a"] = -5.0                       # what was handed out is not the chain's own
        if ch.current_sample.list != row(o["cur"]):
            return where + "changing the returned current point changed the chain"
        if ch.max_log_likelihood != o["maxL"]:
            return where + "max_log_likelihood %s, specification %s" % (ch.max_log_likelihood, o["maxL"])
        for j, k in enumerate(COLS):
            got = np.array(ch.get_1d_array(k))
            if len(got) != len(pts) or not close(got, [row(n)[j] for n in pts]):
                return where + "column %s is %s, specification points %s" % (k, got, pts)
        r = ch.random_sample.list
        if r not in [row(n) for n in pts]:
            return where + "random_sample %s is not a point of the chain" % r


INV = ["CurrentIsLast", "MaxIsMax", "Grows", "SampleRows", "Emit"]
ALL = ["append", "repeat", "replace", "get", "minimum_index", "tau", "thin", "nsamples", "samples", "set_proposal", "set_adapt"]


def windows(chk):
    """Long chains, for the burn-in rule that uses a window of 100 points."""
    rs = np.random.RandomState(vlib.SEED)
    traces = []
    for n in range(60 if THOROUGH else 25):
        length = int(rs.randint(95, 400))
        ramp = int(rs.randint(1, length + 60))
        logp = np.where(np.arange(length) < ramp, -200 + 200 * np.arange(length) // ramp, 0) - rs.randint(0, 3, length)
        fd, burn, tau = int(rs.choice([0, 20, 150])), int(rs.choice([1, 5])), int(rs.choice([2, 7]))
        pr, ad = int(rs.choice([0, 60])), int(rs.choice([0, 90]))
        lpri = -rs.randint(0, 5, length)
        mk = lambda i: Sample({"a": 0.1 * i, "b": 1.0, LOGLKEY: float(logp[i] - lpri[i]), LOGPKEY: float(lpri[i])})
        ch = Chain(mk(0), burn_in_nact=burn, fixed_discard=fd, autocorr_c=1, fixed_tau=tau, block_length=37)
        read = n % 2
        for i in range(1, length):
            ch.append(mk(i))
            if i == length // 2 and read:
                ch.tau, ch.nsamples
        ch.minimum_index_proposal = pr
        ch.minimum_index_adapt = ad
        if length - 1 < fd:
            continue
        got = ch.minimum_index
        mid = length // 2
        if read and ch.tau_last == np.inf:
            tau = 0
        traces.append(dict(logp=[int(x) for x in logp], fd=fd, prop=pr, adapt=ad, burn=burn, tau=tau, ndim=2,
                           events=[int(got), int(ch.minimum_index)]))
    chk.validate("burn-in-window", "ChainWindow", traces)


def run(chk):
    bilby.core.utils.random.seed(vlib.SEED)
    cfgs = [(2, 1, 2, 0, 1, 3), (3, 2, 1, 4, 1, 2), (4, 1, 4, 0, 2, 5), (1, 3, 2, 7, 1, 4), (3, 5, 2, 2, 2, 100), (1, 0, 1, 0, 1, 3)]
    for i, (T, burn, th, fd, c, bl) in enumerate(cfgs if THOROUGH else cfgs[:2]):
        k = dict(T=T, Burn=burn, Thin2=th, FD=fd, C=c, Block=bl, K=3, Ops=set(ALL))
        r = chk.tlc("exhaustive", "Chain", constants=k, invariants=INV)
        chk.replay_all("exhaustive", r.emitted, replay)
    for i, (T, burn, th, fd, c, bl) in enumerate(cfgs):
        k = dict(T=T, Burn=burn, Thin2=th, FD=fd, C=c, Block=bl, K=25, Ops=set(ALL))
        r = chk.tlc("random", "Chain", constants=k, invariants=INV, spec="SimSpec",
                    simulate=1500 if THOROUGH else 150, depth=27, seed=vlib.SEED + i)
        chk.replay_all("random", r.emitted, replay)
    windows(chk)
