"""C25: conversion of source parameters."""
import itertools
import random
import numpy as np
import vlib
from vlib import THOROUGH, SEED
bilby = vlib.bilby_quiet()
import pandas as pd
from bilby.core.prior import Constraint, DeltaFunction, PriorDict, Uniform
from bilby.gw import conversion as cv
from bilby.gw.prior import BBHPriorDict, BNSPriorDict

# (m1, m2, redshift, a, tilt, theta_jn, psi, phase, lambda_1, lambda_2)
SYSTEMS = [
    (36.0, 29.0, 0.1, 0.6, 1.1, 0.4, 0.3, 1.7, 300.0, 700.0),
    (50.0, 10.0, 0.5, 0.9, 2.7, 2.9, 2.8, 6.1, 150.0, 9000.0),
    (30.0, 30.0, 0.02, 0.0, 0.0, 1.5, 0.0, 0.0, 400.0, 400.0),
    (1.6, 1.2, 0.01, 0.05, np.pi / 2, 0.0, 1.2, 3.0, 250.0, 1100.0),
    (80.0, 4.0, 1.5, 0.3, 0.0, np.pi, 0.7, 5.5, 10.0, 20000.0),
    (7.3, 7.2999, 0.2, 0.7, np.pi, 1.0, 3.1, 2.0, 600.0, 601.0),
    (23.1, 23.1, 0.3, 0.0, 0.0, 2.2, 1.0, 4.0, 400.0, 500.0),
    (3.3, 1.1, 0.05, 0.99, 0.2, 0.7, 0.1, 0.2, 800.0, 0.0),
]


def love(u, ls, q):
    return cv.binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(u, ls, q)


def truth(systems, b):
    """All parameters of the systems, from the masses up, given what the specification assumes."""
    from bilby.gw.cosmology import get_cosmology
    m1, m2, z, a, tilt, jn, psi, phase, l1, l2 = [np.array(x) for x in zip(*systems)]
    cos = get_cosmology()
    given = set(b["given"])
    u = 0.3 + 0 * m1
    t = dict(mass_1=m1, mass_2=m2, total_mass=m1 + m2, mass_ratio=m2 / m1, chirp_mass=(m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, symmetric_mass_ratio=m1 * m2 / (m1 + m2) ** 2,
             redshift=z, luminosity_distance=cos.luminosity_distance(z).value, comoving_distance=cos.comoving_distance(z).value)
    for k in ("mass_1", "mass_2", "total_mass", "chirp_mass"):
        t[k + "_source"] = t[k] / (1 + z)
    chi = a * np.cos(tilt)
    t.update(chi_1=chi, chi_1_in_plane=a * np.sin(tilt))
    if b["aligned"]:
        a, tilt = abs(chi), np.where(chi >= 0, 0.0, np.pi)
    t.update(a_1=a, tilt_1=tilt, cos_tilt_1=np.cos(tilt))
    t.update(theta_jn=jn, cos_theta_jn=np.cos(jn), psi=psi, phase=phase, phi_12=0.4 + 0 * jn if "phi_12" in given else 0 * jn, phi_jl=1.4 + 0 * jn if "phi_jl" in given else 0 * jn)
    t["delta_phase"] = np.mod(phase + np.sign(np.cos(jn)) * psi, 2 * np.pi)
    q = m2 / m1
    if b["matter"] and not ("lambda_2" in given):
        l2 = l1 / q ** 5
    elif b["none"]:
        l1 = l2 = 0 * q
    ls = (l1 + l2) / 2
    if b["love"]:
        l1, l2 = love(u, ls, q)
    eta = t["symmetric_mass_ratio"]
    d = np.sqrt(np.clip(1 - 4 * eta, 0, None))
    t.update(lambda_1=l1, lambda_2=l2, lambda_symmetric=ls, lambda_antisymmetric=(l2 - l1) / 2, binary_love_uniform=u,
             lambda_tilde=8 / 13 * ((1 + 7 * eta - 31 * eta ** 2) * (l1 + l2) + d * (1 + 9 * eta - 11 * eta ** 2) * (l1 - l2)),
             delta_lambda_tilde=0.5 * (d * (1 - 13272 / 1319 * eta + 8944 / 1319 * eta ** 2) * (l1 + l2)
                                       + (1 - 15910 / 1319 * eta + 32850 / 1319 * eta ** 2 + 3380 / 1319 * eta ** 3) * (l1 - l2)))
    return t


def close_to(key, x, y, a):
    x, y, a = np.broadcast_arrays(np.asarray(x), np.asarray(y, float), np.asarray(a))
    if np.iscomplexobj(x) or not np.all(np.isfinite(x.astype(float))):
        return False
    x = x.astype(float)
    if key in ("tilt_1", "cos_tilt_1"):
        x, y = np.where(a < 1e-12, 0, x), np.where(a < 1e-12, 0, y)
    if key in ("phase", "delta_phase"):
        diff = abs(np.mod(x - y + np.pi, 2 * np.pi) - np.pi)
        return np.all(diff < 1e-6)
    tol = 1e-6 if key in ("tilt_1", "theta_jn", "cos_tilt_1") else 1e-5 if key.startswith("lambda") else 1e-6
    return np.all(abs(x - y) <= tol * np.maximum(1 if not key.startswith("mass") else 0, abs(y)) + (1e-9 if not key.startswith("lambda") else 1e-3))


TIDES = {"lambda_1", "lambda_2"}
WAVE = {"mass_1", "mass_2", "luminosity_distance", "a_1", "tilt_1", "phi_12", "phi_jl", "theta_jn", "phase", "psi", "lambda_1", "lambda_2"}
CALL = [0]


def body2(d):
    """The same description of the second spin."""
    return {k.replace("_1", "_2") if k in ("a_1", "tilt_1", "cos_tilt_1", "chi_1") else "chi_2_in_plane" if k == "chi_1_in_plane" else k: v for k, v in d.items()}


def replay(b):
    CALL[0] += 1
    n = CALL[0]
    form = ("float", "array", "numpy", "frame")[n % 4]
    if form in ("float", "numpy"):
        sys = [SYSTEMS[(n // 4) % len(SYSTEMS)]]
    else:
        sys = SYSTEMS if n % 8 < 4 else SYSTEMS[::-1][:3]
    if any(k.startswith("lambda") or k == "binary_love_uniform" for k in b["given"]):
        # the tidal deformabilities follow from the mass ratio: not for the extreme ones; delta_lambda is degenerate at equal masses
        sys = [s for s in sys if s[1] / s[0] > 0.3 and s[0] - s[1] > 0.01] or [SYSTEMS[3]]
    if any(k.endswith("_source") for k in b["given"]):
        # the redshift follows from the distances to some digits only, the mass ratio of equal masses from half as many
        sys = [s for s in sys if s[1] / s[0] < 0.99] or [SYSTEMS[1]]
    t = truth(sys, b)
    order = sorted(b["given"])
    random.Random(n).shuffle(order)
    second = form != "frame" and n % 3 == 0
    conv = {"float": lambda x: float(x[0]), "numpy": lambda x: np.float64(x[0]), "array": lambda x: np.array(x), "frame": lambda x: np.array(x)}[form]
    names = body2({k: k for k in t}) if second else {k: k for k in t}
    names = {v: k for k, v in names.items()}         # own name -> bilby's
    given = {names[k]: conv(t[k]) for k in order}
    arg = pd.DataFrame(given) if form == "frame" else dict(given)
    before = arg.copy() if form == "frame" else {k: np.array(v) for k, v in arg.items()}
    keys = list(arg)
    allowed = {names[k] for k in b["all"]}
    a_true = t["a_1"] if form in ("array", "frame") else t["a_1"][0]
    for bns in (False, True):
        f = cv.convert_to_lal_binary_neutron_star_parameters if bns else cv.convert_to_lal_binary_black_hole_parameters
        if not bns and any(k.startswith("lambda") for k in given) and n % 2:
            continue
        out, added = f(arg)
        what = "%s of %s given as %s, system %s" % (f.__name__, keys, form, sys if len(sys) == 1 else "array")
        if list(arg) != keys or any(not np.array_equal(arg[k], before[k]) for k in keys):
            return what + ": changed the argument"
        if sorted(added) != sorted(set(out) - set(keys)):
            return what + ": reports %s as added, added %s" % (sorted(added), sorted(set(out) - set(keys)))
        if set(keys) - set(out):
            return what + ": lost %s" % (set(keys) - set(out))
        need = {names[k] for k in b["all"] if k in WAVE} - (set() if bns else TIDES)
        if need - set(out):
            return what + ": misses %s" % sorted(need - set(out))
        if set(out) - allowed:
            return what + ": %s do not follow from the given ones" % sorted(set(out) - allowed)
        inv = {v: k for k, v in names.items()}
        for k in out:
            y = t[inv[k]]
            if not close_to(inv[k], np.asarray(out[k]), y if form in ("array", "frame") else y[0], a_true):
                return what + ": %s = %s, expected %s" % (k, np.asarray(out[k]), y)
            if k in keys and not np.allclose(np.asarray(out[k], float), np.asarray(before[k], float), rtol=1e-6, atol=2e-7):
                return what + ": the given %s became %s" % (k, np.asarray(out[k]))


MASS6 = ["mass_1", "mass_2", "total_mass", "chirp_mass", "mass_ratio", "symmetric_mass_ratio"]


def generate(b):
    """All derived parameters are the same whichever set was given."""
    CALL[0] += 1
    n = CALL[0]
    sys = [SYSTEMS[n % len(SYSTEMS)]]
    if any(k.startswith("lambda") for k in b["given"]):
        sys = [SYSTEMS[(0, 3)[n % 2]]]
    t = {k: float(v[0]) for k, v in truth(sys, b).items()}
    fixed = dict(a_2=0.4, tilt_2=0.8, psi=t["psi"], ra=1.0, dec=0.2, geocent_time=0.0)
    given = {k: t[k] for k in b["given"]}
    given.update(fixed)
    if "phase" not in b["all"]:
        given["phase"] = t["phase"]
    if "theta_jn" not in b["all"]:
        given["theta_jn"] = t["theta_jn"]
    if "a_1" not in b["all"]:
        given["a_1"] = t["a_1"]
    if "tilt_1" not in b["all"]:
        given["tilt_1"] = t["tilt_1"]
    if not {"mass_1", "mass_2"} <= set(b["all"]):
        given.update(mass_1=t["mass_1"], mass_2=t["mass_2"])
    if "luminosity_distance" not in b["all"]:
        given["luminosity_distance"] = t["luminosity_distance"]
    if b["aligned"] and t["chi_1"] == 0:
        return None      # the direction of no spin
    ref = dict(mass_1=t["mass_1"], mass_2=t["mass_2"], a_1=t["a_1"], tilt_1=t["tilt_1"], theta_jn=t["theta_jn"], phase=t["phase"], phi_12=t["phi_12"], phi_jl=t["phi_jl"],
               luminosity_distance=t["luminosity_distance"], **fixed)
    bns = any(k.startswith("lambda") for k in b["given"])
    if bns:
        ref.update(lambda_1=t["lambda_1"], lambda_2=t["lambda_2"])
    f = cv.generate_all_bns_parameters if bns else cv.generate_all_bbh_parameters
    before = dict(given)
    a, r = f(given), f(ref)
    if given != before:
        return "%s changed its argument: %s" % (f.__name__, sorted(before))
    if set(r) - set(a):
        return "%s of %s misses %s" % (f.__name__, sorted(given), sorted(set(r) - set(a)))
    need = set(MASS6) | {k + "_source" for k in MASS6[:4]} | {"redshift", "comoving_distance", "spin_1x", "spin_1y", "spin_1z", "spin_2z", "iota", "chi_eff", "chi_p", "cos_tilt_1"}
    if need - set(r):
        return "%s misses %s" % (f.__name__, sorted(need - set(r)))
    near = abs(t["mass_ratio"] - 1) < 1e-3
    for k in r:
        if isinstance(r[k], str) or k in ("phi_1", "phi_2"):
            if isinstance(r[k], str) and a[k] != r[k]:
                return "%s of %s: %s" % (f.__name__, sorted(given), k)
            continue
        if t["a_1"] < 1e-12 and k in ("tilt_1", "cos_tilt_1"):
            continue
        tol = 3e-5 if k not in ("spin_1x", "spin_1y", "spin_2x", "spin_2y") else 1e-4
        if not abs(float(a[k]) - float(r[k])) <= tol * max(1, abs(float(r[k])) if not near else 2 * abs(float(r[k]))):
            return "%s of %s: %s = %s, from the component parameters %s" % (f.__name__, sorted(before), k, a[k], r[k])
    for k in set(r) & set(t):
        if k in ("tilt_1", "cos_tilt_1") and t["a_1"] < 1e-12 or k == "chi_1_in_plane" and b["aligned"]:
            continue
        if not close_to(k, r[k], t[k], t["a_1"]) and not near:
            return "%s: %s = %s, expected %s" % (f.__name__, k, r[k], t[k])


def masses(b):
    """generate_mass_parameters adds every mass parameter, or refuses."""
    keys = [k for k in b["given"] if k in MASS6]
    src = [k for k in b["given"] if k.endswith("_source") or k in MASS6[4:]]
    CALL[0] += 1
    sys = [SYSTEMS[CALL[0] % len(SYSTEMS)]]
    t = truth(sys, b)
    for ks, source in ((keys, False), (src, True)):
        suffix = "_source" if source else ""
        want = [k + suffix for k in MASS6[:4]] + MASS6[4:]
        frame = b["own"]["src" if source else "det"]
        given = {k: float(t[k][0]) for k in ks}
        before = dict(given)
        if not frame:
            out = cv.generate_component_masses(given, source=source)
            if given != before or any(out.get(k) != v for k, v in before.items()):
                return "generate_component_masses(%s) changed %s" % (ks, given)
            if set(out) - set(ks) - {"mass_ratio", "symmetric_mass_ratio"}:
                return "generate_component_masses(%s) added %s" % (ks, set(out) - set(ks))
            try:
                cv.generate_component_masses(given, require_add=True, source=source)
            except KeyError:
                continue
            return "generate_component_masses(%s, require_add=True) did not refuse" % ks
        out = cv.generate_mass_parameters(given, source=source)
        if given != before:
            return "generate_mass_parameters(%s) changed its argument" % ks
        if set(out) != set(want):
            return "generate_mass_parameters(%s) has %s" % (ks, sorted(out))
        for k in want:
            if not close_to(k, out[k], t[k][0], 1):
                return "generate_mass_parameters(%s): %s = %s, expected %s" % (ks, k, out[k], t[k])


def eos(chk):
    """Equation of state parameters: arrays and numbers in any mixture give the same deformabilities."""
    base = dict(mass_1=1.6, mass_2=1.3, luminosity_distance=40.0)
    SETS = dict(polytrope=dict(eos_polytrope_gamma_0=3.0, eos_polytrope_gamma_1=2.9, eos_polytrope_gamma_2=2.8, eos_polytrope_log10_pressure_1=33.9, eos_polytrope_log10_pressure_2=34.7),
                scaled=dict(eos_polytrope_gamma_0=3.0, eos_polytrope_gamma_1=2.9, eos_polytrope_gamma_2=2.8, eos_polytrope_scaled_pressure_ratio=0.53, eos_polytrope_scaled_pressure_2=1.7),
                causal=dict(eos_v1=0.6, eos_v2=0.7, eos_v3=0.8, eos_log10_pressure1_cgs=33.9, eos_log10_pressure2_cgs=34.7),
                spectral=dict(eos_spectral_pca_gamma_0=0.3, eos_spectral_pca_gamma_1=0.1, eos_spectral_pca_gamma_2=-0.2, eos_spectral_pca_gamma_3=0.1))
    rnd = random.Random(SEED)
    for name, pars in SETS.items():
        par = dict(base, **pars)
        try:
            one, added = cv.convert_to_lal_binary_neutron_star_parameters(dict(par))
        except Exception as e:
            chk.violation("equation of state", "%s: %r" % (name, e), par)
            continue
        if not {"lambda_1", "lambda_2", "eos_check"} <= set(one) or sorted(added) != sorted(set(one) - set(par)):
            chk.violation("equation of state", "%s: %s added, reported %s" % (name, sorted(set(one) - set(par)), added), par)
            continue
        for trial in range(6 if THOROUGH else 2):
            arrays = [k for k in par if rnd.random() < 0.5] or ["mass_1"]
            other = {k: par[k] * (1.01 if k in arrays else 1) for k in par}
            two, _ = cv.convert_to_lal_binary_neutron_star_parameters(dict(other))
            both = {k: np.array([par[k], other[k]]) if k in arrays else par[k] for k in par}
            out, added = cv.convert_to_lal_binary_neutron_star_parameters(dict(both))
            chk.count("equation of state", cases=1)
            for k in ("lambda_1", "lambda_2", "eos_check"):
                if not np.allclose(np.asarray(out[k], float), np.array([one[k], two[k]], float), rtol=1e-6):
                    chk.violation("equation of state", "%s with %s as arrays: %s = %s, one by one %s" % (name, arrays, k, out[k], [one[k], two[k]]), par)
            if sorted(added) != sorted(set(out) - set(both)):
                chk.violation("equation of state", "%s: added %s reported %s" % (name, set(out) - set(both), added), par)
            for k in both:
                if not np.array_equal(out[k], both[k]):
                    chk.violation("equation of state", "%s with %s as arrays: %s became %s" % (name, arrays, k, out[k]), par)


def love_draw(chk):
    for shape in ((), (3,)):
        for ks in (("chirp_mass", "mass_ratio"), ("mass_1", "mass_2"), ("mass_2", "chirp_mass")):
            t = truth([SYSTEMS[3]] * 3, dict(given=[], aligned=False, matter=False, love=False, none=False))
            g = {k: (t[k] if shape else float(t[k][0])) for k in ks + ("lambda_symmetric",)}
            try:
                out, _ = cv.convert_to_lal_binary_neutron_star_parameters(dict(g))
                bad = None
                if "lambda_1" not in out or "lambda_2" not in out:
                    bad = "no deformabilities"
                elif np.shape(out["lambda_1"]) != shape or not np.allclose((out["lambda_1"] + out["lambda_2"]) / 2, t["lambda_symmetric"][0]):
                    bad = "lambda_1 = %s, lambda_2 = %s do not have the mean %s" % (out["lambda_1"], out["lambda_2"], t["lambda_symmetric"][0])
            except Exception as e:
                bad = repr(e)
            chk.count("deformability drawn from the fit", cases=1)
            if bad:
                chk.violation("deformability drawn from the fit", "%s with shape %s: %s" % (sorted(g), shape, bad), sorted(g))


def redundancy(b):
    CALL[0] += 1
    cls = BNSPriorDict if b["bns"] else BBHPriorDict
    pri = {}
    for k, kind in sorted((b["priors"] or {}).items(), key=lambda x: hash((x[0], CALL[0]))):
        pri[k] = dict(sampled=Uniform(0.1, 0.9, k), fixed=DeltaFunction(0.3, k), constraint=Constraint(0.1, 0.9, k))[kind]
    p = cls(pri)
    before = {k: repr(v) for k, v in p.items()}
    for key, want in b["redundant"].items():
        got = bool(p.test_redundancy(key, disable_logging=True))
        if got != want:
            return "%s(%s).test_redundancy(%s) is %s" % (cls.__name__, b["priors"], key, got)
    got = bool(p.test_has_redundant_keys())
    if got != b["has"]:
        return "%s(%s).test_has_redundant_keys() is %s" % (cls.__name__, b["priors"], got)
    if {k: repr(v) for k, v in p.items()} != before:
        return "the redundancy test changed the prior"


def run(chk):
    rnd = random.Random(SEED)
    for part, num in (("mass", 420), ("spin", 420), ("tides", 60)):
        r = chk.tlc(part, "Conversion", constants=dict(Part=part), spec="Spec", invariants=["Sound", "Complete", "Keeps", "Monotone", "Emit"])
        bs = sorted(r.emitted, key=str)
        rnd.shuffle(bs)
        # small sets first: those are the ones users give
        bs.sort(key=lambda b: len(b["given"]) > 6)
        sel = bs if THOROUGH else bs[:num]
        if part == "tides":
            sel = sel * 4
        chk.replay_all(part + " conversion", sel, replay, max_seconds=None if THOROUGH else 12)
        if part == "mass":
            chk.replay_all("component masses", bs if THOROUGH else bs[:500], masses)
        chk.replay_all(part + " generation", sel[:600 if THOROUGH else 40], generate)
    r = chk.tlc("mixed", "Conversion", constants=dict(Part="all"), spec="SimSpec", invariants=["Sound", "Complete", "Keeps", "Emit"], simulate=6000 if THOROUGH else 500, depth=12)
    chk.replay_all("mixed conversion", r.emitted, replay, max_seconds=None if THOROUGH else 8)
    chk.replay_all("mixed generation", r.emitted[:3000 if THOROUGH else 40], generate)
    eos(chk)
    love_draw(chk)
    every = {"masses", "tilt1", "tilt2", "azimuth", "inclination", "distance", "tides", "other"}
    for bns in (False, True):
        who = "BNS" if bns else "BBH"
        for chosen in ({"masses"}, {"distance", "inclination"}, {"azimuth", "tilt1"}, {"tides", "other"}):
            if bns and chosen != {"tides", "other"}:
                continue
            r = chk.tlc(who + " redundancy", "PriorRedundancy", constants=dict(Bns=bns, MaxPriors=3, Chosen=chosen), spec="Spec", invariants=["Emit"], properties=["Additive"])
            bs = sorted(r.emitted, key=str)
            rnd.shuffle(bs)
            chk.replay_all(who + " redundancy", bs if THOROUGH else bs[:120], redundancy)
        r = chk.tlc(who + " redundancy", "PriorRedundancy", constants=dict(Bns=bns, MaxPriors=11, Chosen=every), spec="SimSpec", invariants=["Emit"],
                    simulate=1200 if THOROUGH else 30, depth=12)
        chk.replay_all(who + " redundancy", r.emitted, redundancy)
