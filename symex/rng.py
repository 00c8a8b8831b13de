"""numpy.random, with draws that are inputs of the scenario.

A stream is identified by its seed; the k-th scalar draw of a stream is one input, named
"<stream>:<k>:<kind>".  The same stub serves the symbolic runs (draws are variables) and the replays (draws are
numbers).  The distribution is forgotten: a uniform draw is any number in (0, 1), a standard normal draw any
number in [-NMAX, NMAX], a permutation any permutation.
"""
import math

import numpy as np

NMAX = 6.0


class Backend:
    """Supplied by the harness: u(name), n(name), i(name, lo, hi), perm(name, n), arr(list, shape, kind),
    lerp(lo, hi, u), unsupported(what)."""


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list, np.ndarray)):
        return tuple(int(s) for s in size)
    return (int(size),)


class Stream:
    def __init__(self, be, key):
        self.be, self.key, self.pos = be, key, 0
        self.counts = {}

    def nth(self, kind):
        """Number of draws of this kind made from the stream; told to the scenario's policy."""
        k = self.be.nth = self.counts.get(kind, 0)
        self.counts[kind] = k + 1

    def name(self, kind):
        n = f"{self.key}:{self.pos}:{kind}"
        self.pos += 1
        return n


class Random:
    """The numpy.random functions over one current stream (module level, RandomState or Generator)."""

    def __init__(self, be, key="g"):
        self._be = be
        self._st = Stream(be, key)

    # seeding
    def seed(self, s=None):
        be = self._be
        if s is None:
            k = be.fresh_stream()
        else:
            if isinstance(s, np.ndarray) and s.ndim == 0:
                s = s.item()
            k = f"s{s}"
        self._st = Stream(be, k)

    def get_state(self, legacy=True):
        return ("STUB", self._st.key, self._st.pos, dict(self._st.counts))

    def set_state(self, s):
        self._st = Stream(self._be, s[1])
        self._st.pos = s[2]
        self._st.counts = dict(s[3]) if len(s) > 3 else {}

    # helpers
    def _draw(self, size, f, kind="f"):
        sh = _shape(size)
        if sh is None:
            return f()
        n = int(np.prod(sh)) if sh else 1
        return self._be.arr([f() for _ in range(n)], sh, kind)

    def _u(self):
        self._st.nth("u")
        return self._be.drawn("u", self._st.name("u"))

    def _n(self):
        self._st.nth("n")
        return self._be.drawn("n", self._st.name("n"))

    def random_sample(self, size=None, *a, **k):
        return self._draw(size, self._u)

    random = ranf = sample = random_sample

    def rand(self, *d):
        return self._draw(d if d else None, self._u)

    def randn(self, *d):
        return self._draw(d if d else None, self._n)

    def standard_normal(self, size=None, *a, **k):
        return self._draw(size, self._n)

    def normal(self, loc=0.0, scale=1.0, size=None):
        be = self._be
        if size is None:
            sh = np.broadcast_shapes(np.shape(be.nat(loc)), np.shape(be.nat(scale)))
            size = sh if sh else None
        z = self.standard_normal(size)
        if isinstance(loc, (int, float)) and loc == 0.0 and isinstance(scale, (int, float)) and scale == 1.0:
            return z
        return loc + scale * z

    def uniform(self, low=0.0, high=1.0, size=None):
        be = self._be
        sl, sh = be.shape(low), be.shape(high)
        if size is None:
            s = np.broadcast_shapes(sl, sh)
            if s == ():
                return be.lerp(be.item(low), be.item(high), self._u())
            size = s
        size = _shape(size)
        if np.broadcast_shapes(sl, sh, size) != size:
            raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
        lo, hi = be.cells(low, size), be.cells(high, size)
        be.in_box = True  # told to the scenario's policy
        try:
            return be.arr([be.lerp(a, b, self._u()) for a, b in zip(lo, hi)], size, "f")
        finally:
            be.in_box = False

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        low = int(low)
        if high is None:
            low, high = 0, low
        high = int(high) + (1 if endpoint else 0)
        if low >= high:
            raise ValueError("low >= high")
        return self._draw(size, lambda: self._int(low, high - 1), "i")

    integers = randint

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def _int(self, lo, hi):
        self._st.nth("i")
        v = self._be.chosen("i", hi - lo + 1)
        return self._be.i(self._st.name("i"), lo, hi) if v is None else lo + v

    def _perm(self, n):
        self._st.nth("p")
        v = self._be.chosen("p", int(n))
        return self._be.perm(self._st, int(n)) if v is None else self._be.arr([np.int64(i) for i in v], (int(n),), "i")

    def permutation(self, x, axis=0):
        if self._be.isint(x):
            return self._perm(x)
        x = self._be.asarray(x)
        return x[self._perm(len(x))]

    permuted = permutation

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        if isinstance(x, list):
            x[:] = [x[int(i)] for i in p]
        else:
            x[:] = x[p].copy()

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            self._be.unsupported("random.choice with probabilities")
        n = int(a) if self._be.isint(a) else len(a)
        if size is None:
            idx = self._int(0, n - 1)
        elif replace:
            idx = self.randint(0, n, size)
        else:
            sh = _shape(size)
            k = int(np.prod(sh))
            if k > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            idx = self._perm(n)[:k].reshape(sh)
        return idx if self._be.isint(a) else self._be.asarray(a)[idx]

    def exponential(self, scale=1.0, size=None):
        return -scale * self._be.log(self.random_sample(size))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(np.random, name):
            raise AttributeError(f"module 'numpy.random' has no attribute '{name}'")
        self._be.unsupported(f"numpy.random.{name}")


class RandomModule(Random):
    """numpy.random itself."""

    def default_rng(self, seed=None):
        if isinstance(seed, Random):
            return seed
        r = Random(self._be)
        r.seed(seed)
        return r

    RandomState = Generator = default_rng

    @property
    def mtrand(self):
        return self


class PyRandom:
    """The standard library's random module."""

    def __init__(self, be):
        self._r = Random(be, "py")

    def seed(self, s=None):
        self._r.seed(None if s is None else f"py{s}")

    def random(self):
        return self._r.random_sample()

    def uniform(self, a, b):
        return self._r.uniform(a, b)

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * self._r.randn()

    normalvariate = gauss

    def randint(self, a, b):
        return self._r.randint(a, b + 1)

    def randrange(self, a, b=None):
        return self._r.randint(a, b)

    def choice(self, s):
        return s[int(self._r.randint(len(s)))]

    def shuffle(self, x):
        self._r.shuffle(x)

    def sample(self, s, k):
        return [s[int(i)] for i in self._r._perm(len(s))[:k]]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._r._be.unsupported(f"random.{name}")
