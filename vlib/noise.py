"""A generator that hands out prescribed random numbers and records what was asked for."""

import numpy as np


class Draws:
    """Stands in for numpy.random.Generator inside ipi.utils.prng.Random.

    Every single number drawn gets an index; `values` maps index -> number (default
    `default`).  For gamma variates the number is the standard (unit-scale) variate.
    """

    def __init__(self, inner=None, default=0.0, values=None):
        self.inner = inner
        self.default = default
        self.values = dict(values or {})
        self.log = []  # (kind, parameter)

    @property
    def bit_generator(self):
        return self.inner.bit_generator

    def reset(self, values=None, default=0.0):
        self.values = dict(values or {})
        self.default = default
        self.log = []

    def _one(self, kind, par=None):
        i = len(self.log)
        self.log.append((kind, par))
        return self.values.get(i, self.default)

    def standard_normal(self, size=None, dtype=float, out=None):
        if out is not None:
            flat = [self._one("g") for _ in range(out.size)]
            out[...] = np.reshape(flat, out.shape)
            return out
        if size is None:
            return self._one("g")
        n = int(np.prod(size))
        return np.reshape([self._one("g") for _ in range(n)], size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def standard_gamma(self, shape, size=None, **kw):
        if size is None:
            return self._one("gamma", float(shape))
        n = int(np.prod(size))
        return np.reshape([self._one("gamma", float(shape)) for _ in range(n)], size)

    def gamma(self, shape, scale=1.0, size=None):
        return scale * self.standard_gamma(shape, size)

    def chisquare(self, df, size=None):
        return 2.0 * self.standard_gamma(df / 2.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self._one("u")
        n = int(np.prod(size))
        return low + (high - low) * np.reshape([self._one("u") for _ in range(n)], size)

    def random(self, size=None):
        return self.uniform(size=size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        u = self.uniform(size=size)
        return (low + np.floor(u * (high - low))).astype(dtype) if size is not None else dtype(low + int(u * (high - low)))

    def poisson(self, lam=1.0, size=None):
        if size is None:
            return self._one("poisson", float(lam))
        raise NotImplementedError

    def shuffle(self, x, axis=0):
        for i in range(len(x) - 1, 0, -1):
            j = int(self._one("u") * (i + 1))
            x[i], x[j] = x[j], x[i]

    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, int) else len(a)
        if size is None and p is None:
            j = int(self._one("u") * n)
            return j if isinstance(a, int) else a[j]
        raise NotImplementedError


def install(sim):
    """Replaces the generators of a Simulation; returns the controller."""
    prng = sim.prng
    d = Draws(prng.rng[0])
    for i in range(len(prng.rng)):
        prng.rng[i] = d
    return d
