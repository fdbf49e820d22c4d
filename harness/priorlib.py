"""Mapping between abstract priors of specs/PriorDict.tla and real bilby priors."""
import numpy as np
import bilby
from bilby.core import prior as bp


def cond_func(deps, lo, w, fixed):
    deps = sorted(deps)
    src = "lambda reference_params, %s: " % ", ".join(deps)
    s = " + ".join(deps)
    if fixed:
        src += "dict(peak=reference_params['peak'] + %s)" % s
    else:
        src += "dict(minimum=reference_params['minimum'] + %s, maximum=reference_params['maximum'] + %s)" % (s, s)
    return eval(src)


def make_prior(e, name=None):
    t, lo, w, deps = e["t"], float(e["lo"]), float(e["w"]), e.get("deps", [])
    if t == "U":
        return bp.Uniform(lo, lo + w, name)
    if t == "D":
        return bp.DeltaFunction(lo, name)
    if t == "CU":
        return bp.ConditionalUniform(condition_func=cond_func(deps, lo, w, False), name=name, minimum=lo, maximum=lo + w)
    if t == "CD":
        return bp.ConditionalDeltaFunction(condition_func=cond_func(deps, lo, w, True), name=name, peak=lo)
    if t == "CP":
        # the exponent depends on the other parameters too (it is always zero, the density flat): arrays of
        # exponents are not supported, so that sampling has to go element by element
        ds = sorted(deps)
        src = "lambda reference_params, %s: dict(minimum=reference_params['minimum'] + %s, " \
              "maximum=reference_params['maximum'] + %s, alpha=0 * %s)" % (", ".join(ds), " + ".join(ds), " + ".join(ds), ds[0])
        return bp.ConditionalPowerLaw(condition_func=eval(src), name=name, minimum=lo, maximum=lo + w, alpha=0)
    if t == "K":
        return bp.Constraint(lo, lo + w, name)
    raise ValueError(t)
