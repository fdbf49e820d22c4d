"""Scripted and real samplers on a likelihood whose values are exact integers on cells."""
import numpy as np
import vlib
bilby = vlib.bilby_quiet()
from bilby.core.prior import PriorDict, Uniform, DeltaFunction, Constraint
from bilby.core.sampler.base_sampler import NestedSampler, MCMCSampler
from bilby.core.utils import random as brandom


class Total:
    """conversion function: the value of every constraint is the sum of the free parameters"""

    def __init__(self, free, cons):
        self.free, self.cons = free, cons

    def __call__(self, sample):
        out = dict(sample)
        if all(k in sample for k in self.free):
            for c in self.cons:
                out[c] = sum(sample[k] for k in self.free)
        return out


class WeightedSum(bilby.Likelihood):
    """sum of weights times parameters; counts and records evaluations"""

    def __init__(self, weights, noise):
        super().__init__({k: 0.0 for k in weights})
        self.weights, self.noise = weights, noise
        self.calls = 0

    def log_likelihood(self):
        self.calls += 1
        return float(sum(w * self.parameters[k] for k, w in self.weights.items()))

    def noise_log_likelihood(self):
        return -float(self.noise)

    def log_likelihood_ratio(self):
        return self.log_likelihood() - self.noise_log_likelihood()


class Cells(bilby.Likelihood):
    """nearly constant on cells of half a unit: sum of weights times cell number plus a small tilt"""

    def __init__(self, weights, noise, keys):
        super().__init__({k: None for k in weights})
        self.weights, self.noise, self.keys = weights, noise, keys
        self.seen = []

    @staticmethod
    def cell(v):
        return int(np.floor(2 * float(v)))

    def log_likelihood(self):
        p = {k: float(self.parameters[k]) for k in self.weights}
        self.seen.append(p)
        return float(sum(w * self.cell(p[k]) for k, w in self.weights.items())) + 1e-4 * sum(p.values())

    def noise_log_likelihood(self):
        return -float(self.noise)

    def log_likelihood_ratio(self):
        return self.log_likelihood() - self.noise_log_likelihood()


def quick_environment():
    """the list of installed packages is asked for once per process instead of once per run"""
    import functools
    import bilby.core.sampler as bs
    if hasattr(bs, "env_package_list"):
        bs.env_package_list = functools.lru_cache(maxsize=None)(bs.env_package_list)
