"""C15: every spectrum of up to five (thorough: six) points over a small alphabet of spacings and weights, and long patterned ones,
queried at every node, in every interval, at the ends and outside, in every query form; the reference is
computed with exact rationals. Queries are made in two orders and repeated: an answer may not depend on earlier ones."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc import base

START = {2: (300.0, -1.0, 0.0), 3: (300.0, -1.0), 4: (300.0,), 5: (300.0,), 6: (300.0,)}
GAPS = (1.0, 0.25, 50.0)
WEIGHTS = (0.0, 1.0, 0.3, 1e6)
PROBS = [0.0, 5e-324, 2.0 ** -53, 1e-9, 0.01, 0.1, 0.25, 1 / 3, 0.5, 0.6, 2 / 3, 0.75, 0.9, 0.999, 1 - 2.0 ** -30, 1 - 2.0 ** -53, 1.0]


class Ref:
    """Exact cumulative probabilities of a spectrum."""

    def __init__(self, x, y, hist):
        self.x, self.y, self.hist = x, y, hist
        X, Y = [Fr(v) for v in x], [Fr(v) for v in y]
        w = Y if hist else [(Y[i] + Y[i + 1]) / 2 * (X[i + 1] - X[i]) for i in range(len(x) - 1)]
        tot = sum(w)
        self.ok = tot > 0
        if not self.ok:
            return
        cum = [Fr(0)]
        for v in w:
            cum.append(cum[-1] + v)
        self.cum = [float(c / tot) for c in cum]
        self.w = [float(v / tot) for v in w]

    def value(self, q):
        i = max(0, min(len(self.x) - (1 if self.hist else 2), int(np.searchsorted(self.x, q, side="right")) - 1))
        if self.hist:
            return self.y[i]
        a, b = Fr(self.x[i]), Fr(self.x[i + 1])
        t = (Fr(q) - a) / (b - a)
        return float(Fr(self.y[i]) * (1 - t) + Fr(self.y[i + 1]) * t)

    def prob(self, q):
        i = max(0, min(len(self.x) - (1 if self.hist else 2), int(np.searchsorted(self.x, q, side="right")) - 1))
        if self.hist:
            return self.cum[i + 1]
        t = float((Fr(q) - Fr(self.x[i])) / (Fr(self.x[i + 1]) - Fr(self.x[i])))
        return self.cum[i] + t * (self.cum[i + 1] - self.cum[i])

    def sampled(self, p, v):
        """None, or what is wrong with value v for probability p."""
        x = self.x
        if not (math.isfinite(v) and x[0] <= v <= x[-1]):
            return "is outside the data range"
        d = 1e-12
        if self.hist:
            hit = [i for i in range(len(x)) if x[i] == v]
            if not hit:
                return "is no bin of the histogram"
            i = hit[0]
            if p < 1 and not self.w[i] > 0:
                return "is a bin of weight zero"
            if not (self.cum[i] - d <= p <= self.cum[i + 1] + d):
                return f"holds probabilities {self.cum[i]} to {self.cum[i + 1]}"
            return None
        tol = 1e-9 * (x[-1] - x[0])
        near = [i for i in range(len(x) - 1) if x[i] - tol <= v <= x[i + 1] + tol]
        if p < 1 and not any(self.w[i] > 0 for i in near):
            return "is in a region of weight zero"
        # monotone inverse: the cumulative probability just below and above v brackets p
        lo, hi = self.prob(max(x[0], v - tol)), self.prob(min(x[-1], v + tol))
        i = max(0, min(len(x) - 2, int(np.searchsorted(x, v, side="right")) - 1))
        if abs(self.prob(v) - p) > 1e-11 and not (lo - d <= p <= hi + d):
            return f"has cumulative probability {self.prob(v)}"
        return None


def queries(x):
    q = list(x)
    for a, b in zip(x[:-1], x[1:]):
        q += [a + (b - a) * f for f in (1e-9, 0.125, 0.5, 0.9)] + [math.nextafter(a, b), math.nextafter(b, a)]
    return sorted({v for v in q if x[0] <= v <= x[-1]})


def outside(x):
    return [math.nextafter(x[0], -1e9), x[0] - 1.0, math.nextafter(x[-1], 1e9), x[-1] + 100.0, float("inf"), -float("inf")]


def refused(f, v):
    try:
        f(v)
    except ValueError:
        return True
    except Exception as e:  # noqa
        return f"{type(e).__name__}: {e}"
    return False


def check(x, y, hist, form, full, bad):
    """All queries on one spectrum; form: how the data are given. Returns the number of queries."""
    from pvtrace.material.distribution import Distribution
    ref = Ref(x, y, hist)
    what = dict(x=x if len(x) < 9 else f"{len(x)} points from {x[:3]}", y=y if len(y) < 9 else f"pattern {y[:6]}", hist=hist, form=form)

    def fail(kind, msg):
        key = f"{'histogram' if hist else 'spectrum'}:{kind}"
        if sum(b[0] == key for b in bad) < 3:
            bad.append((key, f"{what}: {msg}", what))
    try:
        if form == "array":
            d = Distribution(np.array(x), np.array(y), hist=hist)
        elif form == "list":
            d = Distribution(list(x), list(y), hist=hist)
        elif form == "integers":
            d = Distribution(np.array(x).astype(int), np.array(y).astype(int), hist=hist)
        elif form == "column":
            d = Distribution(np.column_stack((x, y))[:, 0], np.column_stack((x, y))[:, 1], hist=hist)
        else:
            Y = np.array(y)
            d = Distribution.from_functions(list(x), [lambda q: 0.25 * Y, lambda q: np.where(Y > 0, 0.75 * Y, np.nan)], hist=hist)
    except Exception as e:  # noqa
        fail("refused", f"valid data are refused: {type(e).__name__}: {e}")
        return 1
    n = 0
    Q = queries(x)
    for rnd in range(2):
        # evaluation
        want = [ref.value(q) for q in Q]
        got = [float(d(q)) for q in Q] if full else []
        arr = np.asarray(d(np.array(Q)), float).tolist()
        n += len(Q) * (2 if full else 1)
        for q, w, *g in zip(Q, want, *( [arr, got] if full else [arr])):
            if any(abs(v - w) > 1e-9 * max(abs(w), max(y) * 1e-6) for v in g):
                fail("evaluate", f"value at {q} is {g[0]}, the data give {w}")
                break
        if full:
            for q in outside(x):
                n += 1
                r = refused(d, q)
                if r is not True:
                    fail("outside", f"evaluation at {q} is not refused{'' if r is False else ': ' + r}")
            for q in outside(x)[:4]:
                r = refused(d, np.array([x[0], q, x[-1]]))
                if r is not True:
                    fail("outside", f"evaluation of an array with {q} is not refused{'' if r is False else ': ' + r}")
        if not ref.ok:
            continue
        # lookup
        arr = np.asarray(d.lookup(np.array(Q)), float).tolist()
        got = [float(d.lookup(q)) for q in Q] if full else arr
        n += len(Q) * (2 if full else 1)
        prev = 0.0
        for q, g, a in zip(Q, got, arr):
            w = ref.prob(q)
            if abs(g - w) > 1e-11 or abs(a - w) > 1e-11:
                fail("lookup", f"lookup({q}) is {g}, the cumulative probability is {w}")
                break
            if not prev <= g <= 1.0:
                fail("lookup", f"lookup({q}) is {g} after {prev}")
                break
            prev = g
        if abs(got[-1] - 1.0) > 1e-12 or (not hist and abs(got[0]) > 1e-12):
            fail("ends", f"lookup runs from {got[0]} to {got[-1]}")
        if full:
            for q in outside(x):
                n += 1
                r = refused(d.lookup, q)
                if r is not True:
                    fail("outside", f"lookup at {q} is not refused{'' if r is False else ': ' + r}")
        # sampling
        P = PROBS + [p for c in ref.cum for p in (c, math.nextafter(c, 0), math.nextafter(c, 1)) if 0 <= p <= 1]
        arr = np.asarray(d.sample(np.array(P)), float)
        if arr.shape != (len(P),):
            fail("sample", f"{len(P)} probabilities gave an array of shape {arr.shape}")
            continue
        arr = arr.tolist()
        got = [float(d.sample(p)) for p in P] if full else arr
        n += len(P) * (2 if full else 1)
        for p, g, a in zip(P, got, arr):
            for v in {g, a}:
                m = ref.sampled(p, v)
                if m:
                    fail("sample", f"sample({p}) is {v}, which {m}")
                    break
        m = sorted(zip(P, got))
        if any(b[1] < a[1] for a, b in zip(m, m[1:])):
            fail("sample", "samples do not increase with the probability")
        if full:
            # inversion: looking up a sample gives its probability back
            for p in P:
                if p < 1 and not hist and abs(float(d.lookup(d.sample(p))) - p) > 1e-11:
                    fail("inverse", f"lookup(sample({p})) is {d.lookup(d.sample(p))}")
                    break
            for q in Q:
                if hist and p < 1 and ref.w[x.index(q)] > 0 if q in x else False:
                    if float(d.sample(d.lookup(q))) != q:
                        fail("inverse", f"sample(lookup({q})) is {d.sample(d.lookup(q))}")
                        break
            for p in (-5e-324, -0.5, 1 + 2.0 ** -52, 7.0, float("inf")):
                n += 1
                r = refused(d.sample, p)
                if r is not True:
                    fail("outside", f"sample({p}) is not refused{'' if r is False else ': ' + r}")
    return n


def axes(n):
    for s in START[n]:
        for g in itertools.product(GAPS if n < 5 or base.THOROUGH else GAPS[1:], repeat=n - 1):
            x = [s]
            for v in g:
                x.append(x[-1] + v)
            yield x


def job_small(a):
    n, part, parts = a
    bad, q, c = [], 0, 0
    for i, (x, y) in enumerate(itertools.product(axes(n), itertools.product(WEIGHTS, repeat=n))):
        if i % parts != part:
            continue
        for hist in (False, True):
            full = n <= 3 or i % 211 == part % 211
            q += check(x, list(y), hist, "array", full, bad)
            c += 1
            if n <= 3:
                for form in ("list", "column", "functions"):
                    q += check(x, list(y), hist, form, False, bad)
                    c += 1
                if all(float(v).is_integer() for v in x + list(y)):
                    q += check(x, list(y), hist, "integers", True, bad)
                    c += 1
        if len(bad) > 40:
            break
    return c, q, bad[:40]


def job_long(a):
    """Long spectra of every repeating pattern of up to three weights, with zero stretches at the ends."""
    size, part, parts = a
    bad, q, c = [], 0, 0
    for k in (1, 2, 3):
        for ip, pat in enumerate(itertools.product(WEIGHTS, repeat=k)):
            if ip % parts != part:
                continue
            for lead, tail in itertools.product((0, 3), repeat=2):
                for gap in ("even", "alternating"):
                    y = [pat[i % k] for i in range(size)]
                    y[:lead] = [0.0] * lead
                    if tail:
                        y[-tail:] = [0.0] * tail
                    x = [300.0]
                    for i in range(size - 1):
                        x.append(x[-1] + (1.0 if gap == "even" else (0.25, 2.0)[i % 2]))
                    for hist in (False, True):
                        q += check(x, y, hist, "array", False, bad)
                        c += 1
    return c, q, bad[:40]


def job_invalid(_):
    from pvtrace.material.distribution import Distribution
    bad, c = [], 0
    nan, inf = float("nan"), float("inf")
    for n in (2, 3, 4):
        x0 = [300.0 + 2.0 * i for i in range(n)]
        for y0 in itertools.product((0.0, 1.0, 2.5), repeat=n):
            cases = []
            for i in range(n):
                for v in (-1e-300, -1.0, nan, inf, -inf):
                    cases.append((x0, [v if j == i else w for j, w in enumerate(y0)], f"weight {v} at {i}"))
                for v in (nan, inf, -inf):
                    cases.append(([v if j == i else w for j, w in enumerate(x0)], list(y0), f"x {v} at {i}"))
                for j in range(i):
                    x = list(x0)
                    x[i], x[j] = x[j], x[i]
                    cases.append((x, list(y0), f"x {i} and {j} exchanged"))
                    x = list(x0)
                    x[i] = x[j]
                    cases.append((x, list(y0), f"x {i} equal to {j}"))
            for x, y, what in cases:
                for hist in (False, True):
                    c += 1
                    r = refused(lambda _: Distribution(np.array(x), np.array(y), hist=hist), None)
                    if r is not True:
                        bad.append((f"invalid:{what.split()[0]} {what.split()[1]}", f"x={x} y={y} hist={hist} ({what}) is not refused{'' if r is False else ': ' + r}",
                                    {"x": x, "y": y, "hist": hist}))
    return c, c, bad[:40]


def job_components(a):
    """Coefficients of components evaluate their spectra."""
    part, parts = a
    from pvtrace import Absorber, Scatterer, Luminophore, Reactor
    bad, c = [], 0
    ems = np.column_stack(([400.0, 700.0], [1.0, 1.0]))
    for n in (2, 3):
        for i, (x, y) in enumerate(itertools.product(axes(n), itertools.product(WEIGHTS, repeat=n))):
            if i % parts == part and (n == 2 or base.THOROUGH or i // parts % 3 == 0):
                for hist in (False, True):
                    ref = Ref(x, list(y), hist)
                    arr = np.column_stack((x, y))
                    for cls in (Absorber, Scatterer, Reactor, Luminophore):
                        for form in ("array", "functions"):
                            kw = {"emission": ems} if cls is Luminophore and form == "array" else {}
                            if cls is Luminophore and form != "array":
                                continue
                            comp = cls(arr, hist=hist, **kw) if form == "array" else cls([lambda q, y=y: np.array(y)], x=x, hist=hist)
                            for q in queries(x):
                                c += 1
                                if abs(float(comp.coefficient(q)) - ref.value(q)) > 1e-9 * max(abs(ref.value(q)), max(y) * 1e-6):
                                    bad.append((f"component:{cls.__name__}", f"{cls.__name__} coefficient at {q} is {comp.coefficient(q)}, the data give {ref.value(q)}",
                                                {"x": x, "y": y, "hist": hist}))
                            for q in outside(x)[:4]:
                                c += 1
                                if refused(comp.coefficient, q) is not True:
                                    bad.append((f"component:{cls.__name__}:outside", f"{cls.__name__} coefficient at {q} outside {x} is not refused", {"x": x, "hist": hist}))
    return c, c, bad[:40]


JOBS = {"small": job_small, "long": job_long, "invalid": job_invalid, "components": job_components}


def dispatch(j):
    return JOBS[j[0]](j[1])


def main(chk):
    chk.assumptions += ["between data points the cumulative probability of an interpolated spectrum is linear, as documented by its sampling (constant density per interval)",
                        "the value sampled at probability exactly 1 is only required to be in range: trailing data of weight zero have cumulative probability 1 as well",
                        "spectra without any weight have no cumulative probability: only their evaluation is checked"]
    jobs, seen = [], {}
    for n in (2, 3, 4, 5) + ((6,) if base.THOROUGH else ()):
        parts = {2: 1, 3: 4, 4: 16, 5: 64, 6: 256}[n]
        jobs += [("small", (n, k, parts)) for k in range(parts)]
    jobs += [("long", (s, k, 16)) for s in ((30, 101) if not base.THOROUGH else (30, 101, 1000)) for k in range(16)]
    jobs += [("invalid", None)] + [("components", (k, 8)) for k in range(8)]
    jobs.sort(key=lambda j: j[0] == "small")
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"job": j, "trace": r[1]})
            continue
        c, q, bad = r
        chk.add("states", c)
        chk.add("transitions", q)
        chk.add("traces_validated_against_impl", c)
        chk.add(f"{j[0]}_cases", c)
        for b in bad:
            seen[b[0]] = seen.get(b[0], 0) + 1
            if seen[b[0]] <= 3:
                chk.violation(*b)
    chk.sample({"x": [300.0, 300.25, 350.25], "y": [0.0, 1.0, 0.3], "queries": queries([300.0, 300.25, 350.25])})
    chk.sample({"probabilities": PROBS})
