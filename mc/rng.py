"""Ownership of the random source.

`install()` replaces the module level functions of `random` and `numpy.random` (before blueqat is
imported, so `from random import random` is captured as well).  While a Source is active, every draw is
reduced to two primitives of that source:  u() in [0,1)  and  idx(n, weights) in range(n).
Without an active source the original functions are used."""
import random as _r
import numpy as np
from contextlib import contextmanager

_active = [None]


class Exhausted(Exception):
    pass


class Tree:
    """Depth first enumeration of all choice sequences (stateless re-execution)."""
    def __init__(self, grid):
        self.grid = grid
        self.prefix = []
        self.done = False

    def start(self):
        self.path = []
        self.weight = 1.0
        self.draws = 0

    def _choose(self, opts):
        k = len(self.path)
        if k < len(self.prefix):
            c = self.prefix[k]
            if c >= len(opts):
                raise RuntimeError("replay diverged: choice out of range")
        else:
            c = 0
        self.path.append((c, len(opts)))
        val, w = opts[c]
        self.weight *= w
        self.draws += 1
        if self.draws > 4000:
            raise Exhausted("more than 4000 random draws")
        return val

    def u(self):
        g = self.grid
        return self._choose([((k + 0.5) / g, 1.0 / g) for k in range(g)])

    def idx(self, n, weights=None):
        if weights is None:
            return self._choose([(i, 1.0 / n) for i in range(n)])
        return self._choose([(i, float(w)) for i, w in enumerate(weights) if w > 1e-13])

    def advance(self):
        p = self.path
        while p and p[-1][0] + 1 >= p[-1][1]:
            p = p[:-1]
        if not p:
            return False
        self.prefix = [c for c, _ in p[:-1]] + [p[-1][0] + 1]
        return True


def explore(fn, grid=4, limit=10**7):
    """yield (result, weight, path) for every choice sequence of fn()."""
    t = Tree(grid)
    n = 0
    while True:
        t.start()
        with active(t):
            res = fn()
        if len(t.path) < len(t.prefix):
            raise RuntimeError("replay diverged: fewer choices than the recorded prefix")
        yield res, t.weight, [c for c, _ in t.path]
        n += 1
        if n > limit:
            raise Exhausted("choice tree too large")
        if not t.advance():
            return


class Script:
    """u() and idx() answered by callables, or from finite lists (error when exhausted)."""
    def __init__(self, u=None, idx=None, log=None):
        self._u = u
        self._i = idx
        self.log = log if log is not None else []

    def u(self):
        v = self._u(self) if callable(self._u) else self._u.pop(0)
        self.log.append(('u', v))
        return v

    def idx(self, n, weights=None):
        v = self._i(self, n) if callable(self._i) else self._i.pop(0)
        self.log.append(('i', n, v))
        return v


@contextmanager
def active(src):
    old = _active[0]
    _active[0] = src
    try:
        yield src
    finally:
        _active[0] = old


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


def _fill(size, f):
    sh = _shape(size)
    if sh is None:
        return f()
    n = int(np.prod(sh)) if sh else 1
    a = np.array([f() for _ in range(n)])
    return a.reshape(sh)


class Gen:
    """numpy style generator on the active source (also stands in for default_rng())."""
    def random(self, size=None, *a, **k):
        return _fill(size, _active[0].u)
    random_sample = ranf = sample = random

    def rand(self, *shape):
        return _fill(shape if shape else None, _active[0].u)

    def uniform(self, low=0.0, high=1.0, size=None):
        return _fill(size, lambda: low + (high - low) * _active[0].u())

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return _fill(size, lambda: int(low) + _active[0].idx(int(high) - int(low)))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + (1 if endpoint else 0), size)

    def choice(self, a, size=None, replace=True, p=None, *x, **k):
        pool = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if not replace:
            raise NotImplementedError("choice without replacement")
        if p is None and all(isinstance(v, (int, float, np.generic)) and v == pool[0] for v in pool):
            return _fill(size, lambda: pool[0])         # no choice to make
        w = None if p is None else [float(v) for v in p]
        r = _fill(size, lambda: pool[_active[0].idx(len(pool), w)])
        return r

    def permutation(self, a):
        pool = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        out = []
        while pool:
            out.append(pool.pop(_active[0].idx(len(pool)) if len(pool) > 1 else 0))
        return np.array(out)

    def shuffle(self, a):
        b = list(self.permutation(list(a)))
        for i, v in enumerate(b):
            a[i] = v

    def multinomial(self, n, pvals, size=None):
        p = np.asarray(pvals, float)
        if p[:-1].sum() > 1.0 + 1e-12:
            raise ValueError("sum(pvals[:-1]) > 1.0")
        def one():
            c = np.zeros(len(p), int)
            for _ in range(int(n)):
                c[_active[0].idx(len(p), p)] += 1
            return c
        sh = _shape(size)
        if sh is None:
            return one()
        return np.array([one() for _ in range(int(np.prod(sh)))]).reshape(sh + (len(p),))

    def binomial(self, n, p, size=None):
        def one():
            return sum(_active[0].idx(2, [1 - p, p]) for _ in range(int(n)))
        return _fill(size, one)


_gen = Gen()


class _PyGen:
    def random(self):
        return _active[0].u()

    def uniform(self, a, b):
        return a + (b - a) * _active[0].u()

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[_active[0].idx(len(r))]

    def randint(self, a, b):
        return a + _active[0].idx(b - a + 1)

    def getrandbits(self, k):
        return _active[0].idx(2 ** k)

    def choice(self, seq):
        return seq[_active[0].idx(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if cum_weights is not None:
            weights = np.diff([0] + list(cum_weights))
        if weights is not None:
            w = np.asarray(weights, float)
            weights = w / w.sum()
        return [population[_active[0].idx(len(population), weights)] for _ in range(k)]

    def shuffle(self, x):
        _gen.shuffle(x)

    def sample(self, population, k):
        return list(_gen.permutation(list(population)))[:k]


_py = _PyGen()
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True

    def wrap(mod, name, impl):
        orig = getattr(mod, name)

        def f(*a, **k):
            if _active[0] is None:
                return orig(*a, **k)
            return impl(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)
    for name in ("random", "uniform", "randrange", "randint", "getrandbits", "choice", "choices", "shuffle", "sample"):
        wrap(_r, name, getattr(_py, name))
    for name in ("random", "random_sample", "ranf", "sample", "rand", "uniform", "randint", "choice", "permutation",
                 "shuffle", "multinomial", "binomial"):
        if hasattr(np.random, name):
            wrap(np.random, name, getattr(_gen, name))
    orig_default = np.random.default_rng
    np.random.default_rng = lambda *a, **k: orig_default(*a, **k) if _active[0] is None else _gen


def seed(n):
    _r.seed(n)
    np.random.seed(n % (2 ** 32))
