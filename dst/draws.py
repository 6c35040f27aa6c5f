"""The random source as a seam: seeded per operation, or adversarial (extreme draws)."""

import random

import numpy as np

from .core import Rng

TOP = 1.0 - 2.0**-53


class Draws:
    """mode: 'seeded' | 'zeros' | 'ones' | 'mixed' (extremes and ordinary values mixed)."""

    NAMES = ("rand", "random", "random_sample", "ranf", "sample", "uniform", "randint")

    def __init__(self, mode, seed):
        self.mode, self.seed = mode, seed

    def _u(self, shape):
        n = int(np.prod(shape)) if shape is not None else 1
        if self.mode == "zeros":
            a = np.zeros(n)
        elif self.mode == "ones":
            a = np.full(n, TOP)
        else:
            a = np.array([self.rng.pick([0.0, TOP, self.rng.random(), self.rng.random()]) for _ in range(n)], dtype=float)
        return float(a[0]) if shape is None else a.reshape(shape)

    def __enter__(self):
        np.random.seed(self.seed % (1 << 32))
        random.seed(self.seed)
        self.rng = Rng("draws", self.seed)
        self.saved = {}
        if self.mode == "seeded":
            return self
        self.saved = {n: getattr(np.random, n) for n in self.NAMES}
        np.random.rand = lambda *s: self._u(tuple(s) if s else None)
        for n in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, n, lambda size=None: self._u(size))

        def uniform(low=0.0, high=1.0, size=None):
            if size is None and (np.ndim(low) or np.ndim(high)):
                size = np.broadcast(low, high).shape
            return low + (np.asarray(high) - low) * self._u(size)

        def randint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if high <= low:
                raise ValueError("low >= high")
            u = self._u(size)
            r = np.minimum(low + np.floor(np.asarray(u) * (high - low)).astype(dtype), high - 1)
            return int(r) if size is None else r.astype(dtype)

        np.random.uniform, np.random.randint = uniform, randint
        return self

    def __exit__(self, *exc):
        for n, f in self.saved.items():
            setattr(np.random, n, f)
        return False


def gen_draws(rng):
    return {"mode": rng.wpick([(6, "seeded"), (1, "zeros"), (1, "ones"), (2, "mixed")]), "seed": rng.randrange(1 << 31)}
