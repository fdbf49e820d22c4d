"""Common machinery: run TLC on a specification, obtain behaviours, validate traces, report."""
import concurrent.futures
import atexit
import contextlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
SPECS = os.path.join(VERIF, "specs")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

_SCRATCH = None


def scratch():
    """A scratch directory of this process, removed at exit."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="verif_")
        pid = os.getpid()

        def _rm():
            if os.getpid() == pid:
                shutil.rmtree(_SCRATCH, ignore_errors=True)
        atexit.register(_rm)
    return _SCRATCH


def newdir(prefix="d"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch())


class MachineryError(Exception):
    pass


def tla_value(v):
    """Python -> TLA+ expression (for constants in a generated configuration module)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "-%d" % -v
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla_value(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(tla_value(x) for x in sorted(v, key=repr))
    if isinstance(v, dict):
        if not v:
            return "[x \\in {} |-> 0]"
        if all(isinstance(k, str) and re.match(r"^[A-Za-z_]\w*$", k) for k in v):
            return "[%s]" % ", ".join("%s |-> %s" % (k, tla_value(x)) for k, x in v.items())
        return "(%s)" % " @@ ".join("%s :> %s" % (tla_value(k), tla_value(x)) for k, x in v.items())
    raise TypeError(type(v))


class TLCRun:
    def __init__(self):
        self.states = 0        # distinct states
        self.generated = 0     # states generated = transitions taken
        self.emitted = []
        self.bad = []
        self.ok = []
        self.output = ""
        self.seconds = 0.0


def run_tlc(module, constants=None, spec="Spec", invariants=(), properties=(), constraint=None,
            workers=4, simulate=None, depth=None, seed=None, env=None, timeout=600,
            postcondition=None, view=None, extra=(), allow_violation=False, deadlock=False, heap="4g"):
    """Run TLC on specs/<module>.tla.

    Constants are passed through a generated module MC_<module> that EXTENDS the specification
    (so that records, sequences and sets can be given), and a generated configuration.
    Lines printed by the specification as PrintT("@@E " \\o json), "@@B ", "@@K " are collected.
    """
    t0 = time.time()
    d = newdir("tlc_")
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), d)
    mc = "MC_" + module
    lines = ["---- MODULE %s ----" % mc, "EXTENDS %s, TLC" % module]
    cfg = ["SPECIFICATION %s" % spec]
    for k, v in (constants or {}).items():
        lines.append("const_%s == %s" % (k, v if isinstance(v, _Raw) else tla_value(v)))
        cfg.append("CONSTANT %s <- const_%s" % (k, k))
    lines.append("====")
    with open(os.path.join(d, mc + ".tla"), "w") as f:
        f.write("\n".join(lines) + "\n")
    for i in invariants:
        cfg.append("INVARIANT %s" % i)
    for i in properties:
        cfg.append("PROPERTY %s" % i)
    if constraint:
        cfg.append("CONSTRAINT %s" % constraint)
    if view:
        cfg.append("VIEW %s" % view)
    if postcondition:
        cfg.append("POSTCONDITION %s" % postcondition)
    if not deadlock:
        cfg.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(d, mc + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
    cp = TLA_JAR
    comm = [os.path.join(os.path.dirname(TLA_JAR), x) for x in os.listdir(os.path.dirname(TLA_JAR)) if x.endswith(".jar")]
    cp = ":".join([TLA_JAR] + [c for c in comm if c != TLA_JAR])
    cmd += ["-cp", cp, "tlc2.TLC", "-config", mc + ".cfg", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        cmd += ["-seed", str(seed if seed is not None else SEED), "-workers", "1"]
        cmd += ["-depth", str(depth)]
    else:
        cmd += ["-workers", str(workers)]
    cmd += list(extra) + [mc + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out after %ss on %s" % (timeout, module))
    out = p.stdout.decode("utf-8", "replace")
    r = TLCRun()
    r.output = out
    for line in out.splitlines():
        if line.startswith('"@@'):
            try:
                s = json.loads(line)
            except ValueError:
                raise MachineryError("unparsable TLC line: %s" % line[:400])
            tag, body = s[2], s[4:]
            val = json.loads(body)
            {"E": r.emitted, "B": r.bad, "K": r.ok}[tag].append(val)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.states = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        r.generated = int(m[-1].replace(",", ""))
    r.violation = ("is violated" in out) or ("Temporal properties were violated" in out)
    finished = "Model checking completed. No error has been found." in out or \
        ("Finished in" in out and p.returncode == 0) or (simulate and p.returncode == 0)
    r.returncode = p.returncode
    if not finished and not (allow_violation and r.violation):
        raise MachineryError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, out[out.find('Error:'):][:3500] if 'Error:' in out else out[-3500:]))
    r.seconds = time.time() - t0
    shutil.rmtree(d, ignore_errors=True)
    return r


class _Raw(str):
    pass


def raw(s):
    return _Raw(s)


def write_json(obj):
    fn = os.path.join(newdir("j_"), "trace.json")
    with open(fn, "w") as f:
        json.dump(obj, f)
    return fn


def load_known():
    known = {}
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.parts = {}
        self.viol = []
        self.known_hit = {}
        self.starter = None
        self.assumptions = []
        self.known = load_known().get(prop, {})
        self.max_viol = 25

    # -- model checking -------------------------------------------------
    def start(self, part, module, **kw):
        """Run TLC in the background; the result is taken with `done`."""
        if self.starter is None:
            self.starter = concurrent.futures.ThreadPoolExecutor(4)
        kw.setdefault("workers", 2)
        return part, self.starter.submit(run_tlc, module, **kw)

    def done(self, started):
        part, f = started
        return self.tlc(part, None, result=f.result())

    def tlc(self, part, module, result=None, **kw):
        r = result if result is not None else run_tlc(module, **kw)
        self.states += r.states
        self.transitions += r.generated
        q = self.parts.setdefault(part, {})
        q["tlc_states"] = q.get("tlc_states", 0) + r.states
        q["tlc_transitions"] = q.get("tlc_transitions", 0) + r.generated
        q["tlc_seconds"] = round(q.get("tlc_seconds", 0) + r.seconds, 1)
        if r.emitted:
            q["behaviours_emitted"] = q.get("behaviours_emitted", 0) + len(r.emitted)
        return r

    # -- conformance ----------------------------------------------------
    def replayed(self, part, n_steps, sample=None):
        self.traces += 1
        self.steps += n_steps
        q = self.parts.setdefault(part, {})
        q["replayed"] = q.get("replayed", 0) + 1
        q["replayed_steps"] = q.get("replayed_steps", 0) + n_steps
        if sample is not None and sum(1 for s in self.samples if s.get("part") == part) < 2:
            self.samples.append({"part": part, "case": sample})

    def count(self, part, **kw):
        q = self.parts.setdefault(part, {})
        for k, v in kw.items():
            q[k] = q.get(k, 0) + v

    def violation(self, part, what, replay=None, key=None):
        """Record a violation; `key` identifies it for the known-findings file."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        if len(self.viol) < self.max_viol:
            self.viol.append({"part": part, "what": str(what)[:4000], "replay": replay, "key": key})
        else:
            self.viol.append(None)

    def replay_all(self, part, behaviours, fn, limit=None, max_seconds=None):
        """fn(behaviour) returns None or a description of the first disagreement."""
        t0 = time.time()
        for i, b in enumerate(behaviours):
            if max_seconds and time.time() - t0 > max_seconds:
                self.count(part, not_replayed_time_limit=len(behaviours) - i)
                break
            try:
                res = fn(b)
            except MachineryError:
                raise
            except Exception:
                res = "unexpected exception: " + traceback.format_exc()[-1800:]
            key = None
            if isinstance(res, tuple):
                res, key = res
            n = len(b["hist"]) if isinstance(b, dict) and "hist" in b else (len(b) if isinstance(b, list) else 1)
            self.replayed(part, n, b if i < 2 else None)
            if res:
                self.violation(part, res, replay=b, key=key)
                if len(self.viol) >= self.max_viol:
                    break

    def validate(self, part, module, traces, spec="TraceSpec", keyfn=None, **kw):
        """Let TLC decide whether the recorded traces are behaviours of the trace specification.

        The specification prints @@K <index> for a completely explained trace and
        @@B <record> for the place where one could not be continued."""
        if not traces:
            return
        fn = write_json(traces)
        env = dict(kw.pop("env", {}) or {})
        env["TRACE_FILE"] = fn
        r = self.tlc(part, module, spec=spec, env=env, **kw)
        ok = set(r.ok)
        for i, t in enumerate(traces, 1):
            n = len(t["events"]) if isinstance(t, dict) and "events" in t else len(t)
            self.replayed(part, n, t if i <= 2 else None)
            if i not in ok:
                bad = [b for b in r.bad if b.get("tr") == i]
                bad.sort(key=lambda b: -b.get("l", 0))
                key = keyfn(t, bad) if keyfn else None
                self.violation(part, "trace %d rejected by %s: %s" % (i, module, json.dumps(bad[:1])), replay=t, key=key)
        return r

    # -- result ---------------------------------------------------------
    def finish(self):
        n_viol = len(self.viol)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   implementation_steps_compared=self.steps,
                   samples=json.loads(json.dumps(self.samples, default=str))[:12], parts=self.parts)
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=n_viol)
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, d in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, k, d))
        rp = os.path.join(edir, self.prop + ".replay.json")
        if n_viol:
            with open(rp, "w") as f:
                json.dump([v for v in self.viol if v], f, indent=1, default=str)
            for v in [v for v in self.viol if v][:8]:
                print("--- [%s] %s" % (v["part"], v["what"]))
                if v["replay"] is not None:
                    print("    replay: %s" % json.dumps(v["replay"], default=str)[:500])
            print("%d violations (first %d recorded)" % (n_viol, min(n_viol, self.max_viol)))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            return 1
        print("OK property=%s states=%d transitions=%d behaviours=%d steps=%d wall=%.1fs"
              % (self.prop, self.states, self.transitions, self.traces, self.steps, time.time() - self.t0))
        sys.stdout.flush()
        return 0


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def close(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


def bilby_quiet():
    import logging
    import warnings
    warnings.simplefilter("ignore")
    import bilby  # noqa
    logging.getLogger("bilby").setLevel(logging.CRITICAL + 1)
    logging.disable(logging.CRITICAL)
    return bilby
