"""Randomness seam: numpy and random draw from generators seeded per run; extreme draws can be injected."""
import numpy as np, random
from .sched import CUR

LOW, HIGH = 0.0, float(np.nextafter(1.0, 0.0))
_orig = {}


class Extremes:
    """decides, per draw, whether a uniform draw is replaced by an extreme one.  plan: list of (index, value)
    plus every draw index recorded."""

    def __init__(self, plan, runs=()):
        self.plan = {int(i): float(v) for i, v in plan}
        self.n = 0
        self.used = 0

    def one(self, u):
        self.n += 1
        v = self.plan.get(self.n)
        if v is not None:
            self.used += 1
            return v
        return u


def _fix(x):
    w = CUR.world
    ex = getattr(w, "extremes", None) if w is not None else None
    if ex is None:
        return x
    if np.ndim(x) == 0:
        return ex.one(float(x))
    flat = x.reshape(-1)
    for i in range(flat.size):
        flat[i] = ex.one(float(flat[i]))
    return x


def install():
    st = np.random.random_sample
    _orig["default_rng"] = np.random.default_rng
    rnd = random.random

    def random_sample(size=None):
        return _fix(st(size))

    def rand(*shape):
        return random_sample(shape if shape else None)

    def scaled(draw, low, high, size):
        if np.ndim(low) or np.ndim(high):
            low, high = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
            if size is None:
                size = np.broadcast(low, high).shape
        return low + (high - low) * draw(size)

    def uniform(low=0.0, high=1.0, size=None):
        return scaled(random_sample, low, high, size)
    np.random.random = np.random.random_sample = np.random.ranf = np.random.sample = random_sample
    np.random.rand = rand
    np.random.uniform = uniform

    class SimGenerator:
        def __init__(self, g):
            self._g = g

        def random(self, size=None, *a, **k):
            return _fix(self._g.random(size, *a, **k))

        def uniform(self, low=0.0, high=1.0, size=None):
            return scaled(self.random, low, high, size)

        def __getattr__(self, n):
            return getattr(self._g, n)

    def default_rng(seed=None):
        w = CUR.world
        if w is None:
            return _orig["default_rng"](seed)
        if seed is None:
            seed = np.random.randint(0, 2 ** 31 - 1)
        return SimGenerator(_orig["default_rng"](seed))
    np.random.default_rng = default_rng

    def py_random():
        return _fix(rnd())
    random.random = py_random
    random.uniform = lambda a, b: a + (b - a) * py_random()
