"""Controlled randomness.

Every source of randomness the code under test can reach (numpy's global
generator, numpy Generator objects, the random module) is replaced by a
driver.  Each elementary draw of a uniform variate is a *choice point*; the
explorer enumerates all assignments of alphabet values to choice points with
at most B departures from the default value, replaying the execution from the
start for each of them (stateless search).

Outcomes carry a formal weight: give every draw the measure
(1-e) on the default plus e/|A| on each alphabet value; the weight of an
execution with n draws and b deviations is e^b (1-e)^(n-b) / |A|^b, kept as a
polynomial in e truncated after e^B.  The sum over the explored executions of
one outcome is then exact to order B and does not depend on the order in which
the code makes its draws, nor on draws it makes and does not use - only on
the law of the outcome.
"""
import math

import numpy as np


class Diverged(Exception):
    pass


class Driver:
    def __init__(self, default=0.5):
        self.default = default
        self.script = {}
        self.n = 0
        self.maxdraws = 100000
        self.ints = 0

    def start(self, devs):
        self.script = dict(devs)
        self.n = 0

    def draw(self):
        i = self.n
        self.n += 1
        if i > self.maxdraws:
            raise Diverged("too many draws in one execution")
        return self.script.get(i, self.default)


DRIVER = Driver()


def _shape(size, fn):
    if size is None:
        return fn()
    if isinstance(size, (int, np.integer)):
        return np.array([fn() for _ in range(int(size))], dtype=float)
    n = int(np.prod(size))
    return np.array([fn() for _ in range(n)], dtype=float).reshape(size)


def _bshape(size, *params):
    """Broadcast numpy style: array parameters imply a shape."""
    if size is not None:
        return size
    shp = np.broadcast(*[np.asarray(p) for p in params]).shape
    return None if shp == () else shp


def uniform(low=0.0, high=1.0, size=None):
    size = _bshape(size, low, high)
    u = _shape(size, DRIVER.draw)
    r = low + (np.asarray(high) - np.asarray(low)) * u if size is not None else \
        float(low + (high - low) * u)
    return r


def random(size=None, *a, **k):
    return _shape(size, DRIVER.draw)


def rand(*shape):
    return _shape(shape if shape else None, DRIVER.draw)


def exponential(scale=1.0, size=None):
    size = _bshape(size, scale)
    if size is None:
        return -math.log(1 - DRIVER.draw()) * scale
    return -np.log(1 - _shape(size, DRIVER.draw)) * scale


def standard_exponential(size=None, *a, **k):
    return exponential(1.0, size)


def randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    span = high - low + (1 if endpoint else 0)
    r = _shape(size, lambda: low + int(DRIVER.draw() * span))
    return int(r) if size is None else r.astype(int)


def choice(a, size=None, replace=True, p=None, **k):
    items = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
    w = np.ones(len(items)) / len(items) if p is None else np.asarray(p, float)
    cdf = np.cumsum(w)

    def one():
        return int(min(np.searchsorted(cdf, DRIVER.draw() * cdf[-1], side="right"),
                       len(items) - 1))
    if size is None:
        return items[one()]
    return items[_shape(size, one).astype(int)]


class FakeGenerator:
    def __init__(self, *a, **k):
        pass
    uniform = staticmethod(uniform)
    random = staticmethod(random)
    random_sample = staticmethod(random)
    rand = staticmethod(rand)
    exponential = staticmethod(exponential)
    standard_exponential = staticmethod(standard_exponential)
    integers = staticmethod(randint)
    randint = staticmethod(randint)
    choice = staticmethod(choice)

    def seed(self, *a):
        pass


def _refuse(*a, **k):
    raise Diverged("a random source the driver does not model was used")


_saved = {}


def install():
    """Replace every random source.  Call before importing pvtrace."""
    import random as pyrandom
    reps = {
        "uniform": uniform, "random": random, "random_sample": random,
        "ranf": random, "sample": random, "rand": rand,
        "exponential": exponential, "standard_exponential": standard_exponential,
        "randint": randint, "random_integers": randint, "choice": choice,
        "default_rng": FakeGenerator, "RandomState": FakeGenerator,
        "Generator": FakeGenerator, "seed": lambda *a, **k: None,
        "normal": _refuse, "standard_normal": _refuse, "randn": _refuse,
        "shuffle": _refuse, "permutation": _refuse, "poisson": _refuse,
    }
    for k, v in reps.items():
        if hasattr(np.random, k):
            _saved.setdefault(("np", k), getattr(np.random, k))
            setattr(np.random, k, v)
    for k, v in {"random": lambda: DRIVER.draw(),
                 "uniform": lambda a=0.0, b=1.0: a + (b - a) * DRIVER.draw(),
                 "expovariate": lambda lam=1.0: -math.log(1 - DRIVER.draw()) / lam,
                 }.items():
        _saved.setdefault(("py", k), getattr(pyrandom, k))
        setattr(pyrandom, k, v)


def uninstall():
    import random as pyrandom
    for (m, k), v in _saved.items():
        setattr(np.random if m == "np" else pyrandom, k, v)


# ----------------------------------------------------------------------

def binom(n, k):
    return math.comb(n, k) if 0 <= k <= n else 0


def weight_poly(n, b, B, asize):
    """Coefficients of e^0..e^B of e^b (1-e)^(n-b) / asize^b."""
    w = [0.0] * (B + 1)
    for j in range(0, B - b + 1):
        w[b + j] = ((-1) ** j) * binom(n - b, j) / (asize ** b)
    return w


def explore(run, alphabet, B, roots=((),)):
    """Enumerate all executions with at most B deviations.

    run(devs) -> (result, n_draws); devs is a tuple of (position, value).
    Yields (devs, n, result).  `roots` restricts the search to subtrees."""
    stack = [tuple(r) for r in roots]
    while stack:
        devs = stack.pop()
        result, n = run(devs)
        if devs and n <= devs[-1][0]:
            raise Diverged("replay of a prefix diverged: %r n=%d" % (devs, n))
        yield devs, n, result
        if len(devs) < B:
            first = devs[-1][0] + 1 if devs else 0
            for i in range(n - 1, first - 1, -1):
                for a in reversed(alphabet):
                    stack.append(devs + ((i, a),))


def subtrees(run, alphabet, B):
    """Roots of the depth-1 subtrees (base execution excluded)."""
    _, n = run(())
    if B < 1:
        return []
    return [((i, a),) for i in range(n) for a in alphabet]


class OutcomeLaw:
    """Formal law over outcome histories: discrete key -> polynomial weight
    and weighted characteristic features of the continuous part."""
    NF = 3

    def __init__(self, B, asize):
        self.B, self.asize = B, asize
        self.table = {}
        self.execs = 0

    _phase_cache = {}

    @classmethod
    def _coefs(cls, dim):
        c = cls._phase_cache.get(dim)
        if c is None:
            rs = np.sqrt(np.array([2.0, 3.0, 5.0]))
            i = np.arange(1, dim + 1)
            # fixed incommensurate directions
            c = np.array([np.cos(r * 7.13 * i + r) for r in rs]) * 0.9
            cls._phase_cache[dim] = c
        return c

    def add(self, devs, n, key, vec):
        self.execs += 1
        w = np.array(weight_poly(n, len(devs), self.B, self.asize))
        v = np.asarray(vec, float)
        if v.size:
            ph = self._coefs(v.size) @ v
            feat = np.concatenate(([1.0], np.cos(ph), np.sin(ph)))
        else:
            feat = np.concatenate(([1.0], np.ones(self.NF), np.zeros(self.NF)))
        e = self.table.get(key)
        m = np.outer(w, feat)
        if e is None:
            self.table[key] = [m, np.abs(m[:, 0]).copy(), devs]
        else:
            e[0] += m
            e[1] += np.abs(m[:, 0])
            if len(devs) < len(e[2]):
                e[2] = devs

    def merge(self, other):
        self.execs += other.execs
        for k, (m, s, d) in other.table.items():
            e = self.table.get(k)
            if e is None:
                self.table[k] = [m.copy(), s.copy(), d]
            else:
                e[0] += m
                e[1] += s
                if len(d) < len(e[2]):
                    e[2] = d
        return self

    def diff(self, other, tol=1e-6):
        """Keys on which the two laws differ."""
        out = []
        for k in set(self.table) | set(other.table):
            a, b = self.table.get(k), other.table.get(k)
            za = np.zeros((self.B + 1, 1 + 2 * self.NF))
            ma, sa = (a[0], a[1]) if a else (za, 0)
            mb, sb = (b[0], b[1]) if b else (za, 0)
            scale = np.maximum(np.maximum(sa, sb), 1e-12) * np.ones(self.B + 1)
            d = np.abs(ma - mb) / scale[:, None]
            # a NaN in the features must not compare equal
            bad = ~(d <= tol)
            if bad.any():
                out.append((k, ma, mb, a[2] if a else None, b[2] if b else None))
        out.sort(key=lambda t: (len((t[3] if t[3] is not None else t[4]) or ()), len(t[0])))
        return out
