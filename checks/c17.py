"""C17: emission of lights. For every combination of wavelength, position and direction mask and placement,
every scene of one to three lights and 0..7 photons, the photons of Scene.emit (one by one), of the bundle emission and of
engine.simulate are driven through the product grids of their random draws and through all combinations of
extreme draws. Which draw feeds which photon and property is discovered by sweeps: the draws of different photons,
and of different properties of one photon, must be different ones (independence), and each property must have the
law its mask promises."""
import itertools
import math

import numpy as np

from mc import base
from checks.c15 import Ref
from checks.c16 import EXT, grid, in_support, marginal, phase_cdf

PROBES = (0.03, 0.21, 0.55, 0.83, 0.97)


class W:
    """A wavelength mask: how to build it and its law."""

    def __init__(self, make, spec=None, const=None, hist=False):
        self.make, self.const, self.hist, self.spec = make, const, hist, spec

    def uniform(self, v):
        """(coordinates that must be uniform, what is wrong)"""
        if self.const is not None:
            return (), None if v == self.const else f"wavelength {v}, expected {self.const}"
        ref = Ref(list(self.spec[0]), list(self.spec[1]), self.hist)
        if not (math.isfinite(v) and self.spec[0][0] <= v <= self.spec[0][-1]):
            return (0.5,), f"wavelength {v} is outside the light's spectrum"
        if self.hist:
            if v not in self.spec[0] or not ref.w[list(self.spec[0]).index(v)] > 0:
                return (0.5,), f"wavelength {v} is not in the light's spectrum"
            i = list(self.spec[0]).index(v)
            return ((ref.cum[i] + ref.cum[i + 1]) / 2,), None
        return (ref.prob(v),), None


class P:
    def __init__(self, make, kind, *dims):
        self.make, self.kind, self.dims = make, kind, dims

    def uniform(self, p):
        k, d = self.kind, self.dims
        if not np.isfinite(p).all():
            return (0.5,) * (0 if k == "point" else len(d)), f"position {p}"
        if k == "point":
            return (), None if np.abs(np.subtract(p, d)).max() < 1e-9 else f"position {p} in the light's frame, expected {d}"
        if k == "circle":
            r = math.hypot(p[0], p[1])
            bad = None if r <= d[0] * (1 + 1e-9) and abs(p[2]) < 1e-9 else f"position {p} in the light's frame is outside the circle of radius {d[0]}"
            return ((r / d[0]) ** 2, math.atan2(p[1], p[0]) / (2 * math.pi) % 1.0), bad
        lo, hi = zip(*d)
        bad = None
        out = []
        for a in range(3):
            if not lo[a] - 1e-9 <= p[a] <= hi[a] + 1e-9:
                bad = f"position {p} in the light's frame is outside {d}"
            if hi[a] > lo[a]:
                out.append((p[a] - lo[a]) / (hi[a] - lo[a]))
        return tuple(out), bad


class D:
    def __init__(self, make, ph):
        self.make, self.ph = make, ph

    def uniform(self, d):
        if self.ph == "z":
            return (), None if np.abs(np.subtract(d, (0, 0, 1))).max() < 1e-9 else f"direction {d} in the light's frame, expected z"
        if isinstance(self.ph[0], float):
            return (), None if np.abs(np.subtract(d, self.ph)).max() < 1e-9 else f"direction {d} in the light's frame, expected {self.ph}"
        bad = in_support(self.ph, tuple(d))
        if bad:
            return (0.5, 0.5), bad + " in the light's frame"
        return (float(np.clip(phase_cdf(self.ph, d[2]), 0, 1)), math.atan2(d[1], d[0]) / (2 * math.pi) % 1.0), None


SPEC = {"flat": ([420.0, 700.0], [1.0, 1.0]), "uneven": ([400.0, 450.0, 455.0, 600.0, 700.0], [0.0, 1.0, 0.5, 2.0, 0.0]),
        "bins": ([400.0, 450.0, 500.0, 600.0], [0.0, 1.0, 3.0, 2.0])}


def masks():
    import functools
    from pvtrace.light import light as L
    from pvtrace.material import utils as U
    from pvtrace.material.distribution import Distribution

    def dist(k, hist=False):
        return Distribution(np.array(SPEC[k][0]), np.array(SPEC[k][1]), hist=hist)

    class Half(L.RectangularMask):
        def __call__(self):
            x, y, z = super().__call__()
            return (abs(x), y, z + 0.25)

    class Ring(L.CircularMask):
        pass

    class Narrow(U.Cone):
        def __call__(self):
            return U.cone(0.5 * self.theta_max)

    class Red(L.ConstantWavelengthMask):
        def __call__(self):
            return self.nanometers + 50.0

    class Shifted(L.SpectrumWavelengthMask):
        def __call__(self):
            return 420.0 + 280.0 * np.random.uniform()
    w = {"none": W(lambda: None, const=555.0), "default": W(L.DefaultWavelength, const=555.0), "constant": W(lambda: L.ConstantWavelengthMask(601), const=601.0),
         "flat": W(lambda: L.SpectrumWavelengthMask(dist("flat")), SPEC["flat"]), "uneven": W(lambda: L.SpectrumWavelengthMask(dist("uneven")), SPEC["uneven"]),
         "bins": W(lambda: L.SpectrumWavelengthMask(dist("bins", True)), SPEC["bins"], hist=True), "function": W(lambda: (lambda: 432.1), const=432.1),
         "subclass": W(lambda: Red(600.0), const=650.0), "spectrum subclass": W(lambda: Shifted(dist("uneven")), SPEC["flat"])}
    p = {"none": P(lambda: None, "point", 0, 0, 0), "default": P(L.DefaultPosition, "point", 0, 0, 0),
         "rectangle": P(lambda: L.RectangularMask(1, 2.5), "box", (-1, 1), (-2.5, 2.5), (0, 0)), "square": P(lambda: L.RectangularMask(1.5, 1.5), "box", (-1.5, 1.5), (-1.5, 1.5), (0, 0)), "equal cube": P(lambda: L.CubeMask(.5, .5, .5), "box", (-.5, .5), (-.5, .5), (-.5, .5)), "line": P(lambda: L.RectangularMask(0.5, 0), "box", (-.5, .5), (0, 0), (0, 0)),
         "circle": P(lambda: L.CircularMask(0.7), "circle", 0.7, 0), "cube": P(lambda: L.CubeMask(1, 2, 0.3), "box", (-1, 1), (-2, 2), (-.3, .3)),
         "partial rectangle": P(lambda: functools.partial(L.rectangular_mask, 2, 1), "box", (-2, 2), (-1, 1), (0, 0)),
         "partial circle": P(lambda: functools.partial(L.circular_mask, 2), "circle", 2, 0), "partial cube": P(lambda: functools.partial(L.cube_mask, .1, .2, .3), "box", (-.1, .1), (-.2, .2), (-.3, .3)),
         "function": P(lambda: (lambda: (1.0, -2.0, 0.5)), "point", 1, -2, .5), "half": P(lambda: Half(2.0, 1.0), "box", (0, 2), (-1, 1), (.25, .25)),
         "plain subclass": P(lambda: Ring(1.5), "circle", 1.5, 0)}
    d = {"none": D(lambda: None, "z"), "default": D(L.DefaultDirection, "z"), "isotropic": D(lambda: U.isotropic, ("isotropic",)),
         "lambertian": D(lambda: U.lambertian, ("lambertian",)), "cone": D(lambda: U.Cone(0.3), ("cone", 0.3)), "half space": D(lambda: U.Cone(math.pi / 2), ("cone", math.pi / 2)),
         "hg": D(lambda: U.HenyeyGreenstein(0.6), ("hg", 0.6)), "back": D(lambda: U.HenyeyGreenstein(-0.3), ("hg", -0.3)), "hg zero": D(lambda: U.HenyeyGreenstein(0), ("hg", 0.0)),
         "hg tiny": D(lambda: U.HenyeyGreenstein(1e-11), ("hg", 1e-11)),
         "partial cone": D(lambda: functools.partial(U.cone, 1.1), ("cone", 1.1)), "partial hg": D(lambda: functools.partial(U.henyey_greenstein, 0.8), ("hg", 0.8)),
         "function": D(lambda: (lambda: (0.6, 0.0, -0.8)), (0.6, 0.0, -0.8)), "narrow": D(lambda: Narrow(0.8), ("cone", 0.4))}
    return w, p, d


def place(node, i):
    """Placements of a light in its parent."""
    if i % 4 == 1:
        node.location = (1.0, -2.0, 3.0)
    if i % 4 == 2:
        node.rotate(0.9, (1.0, 2.0, -0.5))
        node.translate((0.5, 0.25, -1.0))
    if i % 4 == 3:
        node.translate((-2.0, 0.0, 1.0))
        node.rotate(math.pi / 2, (0.0, 1.0, 0.0))


def scene(lights, twisted):
    """lights: [(w, p, d, placement, depth)]. Returns (scene, world matrices by light name)."""
    from pvtrace import Node, Scene, Material, Sphere, Light
    w, p, d = masks()
    world = Node(name="world", geometry=Sphere(200.0, material=Material(1.0)))
    if twisted:
        # the root has a pose of its own: photons are given in its frame
        world.translate((5.0, 0.0, -3.0))
        world.rotate(0.7, (0.0, 1.0, 1.0))
    out = {}
    for i, (kw, kp, kd, pl, depth) in enumerate(lights):
        parent, M = world, np.eye(4)
        for k in range(depth):
            parent = Node(name=f"frame {i}.{k}", parent=parent)
            place(parent, pl + k + 1)
            M = M @ np.array(parent.pose)
        # a light of its own kind: emission through a subclass must be its own
        node = Node(name=f"node {i}", parent=parent, light=Light(wavelength=w[kw].make(), position=p[kp].make(), direction=d[kd].make(), name=f"light {i}"))
        place(node, pl)
        out[f"light {i}"] = M @ np.array(node.pose)
    return Scene(world), out


def emitters(sc, n, first):
    """{path: function giving [(position, direction, wavelength, source, travelled, duration)]}"""
    from pvtrace import engine
    from pvtrace.engine.emit import emit_bundle

    def single():
        return [(r.position, r.direction, r.wavelength, r.source, r.travelled, r.duration) for r in sc.emit(first + n)][first:]

    def bundle():
        a = emit_bundle(sc, n, first_ray=first) if first else emit_bundle(sc, n)
        return [(tuple(x), tuple(y), float(z), s, 0.0, 0.0) for x, y, z, s in zip(*a)] if all(len(v) == n for v in a) else []

    def simulate():
        r = engine.simulate(sc, n, seed=5, workers=1, maxsteps=1, max_events=8, record_every=1, **({"first_ray": first} if first else {}))
        out = []
        for h in r.histories():
            ray, ev, _ = h[0]
            if ev.name != "GENERATE":
                return []
            out.append((tuple(ray.position), tuple(ray.direction), ray.wavelength, ray.source, ray.travelled, ray.duration))
        return out
    return {"single": single, "bundle": bundle, "engine": simulate}


def check(lights, twisted, n, first, path, fine, bad):
    from mc.choice import DRIVER
    w, p, d = masks()
    sc, mats = scene(lights, twisted)
    inv = {k: np.linalg.inv(m) for k, m in mats.items()}
    fn = emitters(sc, n, first)[path]
    what = f"{path}: {n} photons{' from ' + str(first) if first else ''}, lights {lights}{', world moved' if twisted else ''}"
    count = 0

    def fail(kind, msg, devs=None):
        key = f"{path}:{kind}"
        if sum(b[0] == key for b in bad) < 2:
            bad.append((key, f"{what}: {msg}" + (f" (draws {devs})" if devs else ""), {"lights": lights, "photons": n, "first": first, "path": path, "draws": devs}))

    def one(devs):
        nonlocal count
        DRIVER.start(devs)
        count += 1
        return fn()
    base0 = one({})
    nd = DRIVER.n
    if len(base0) != n:
        fail("count", f"{len(base0)} photons")
        return count
    order = [x[3] for x in base0]
    L = len(lights)
    names = [f"light {i}" for i in range(L)]
    # in turn: every stretch of L photons has every light once, and the cycle repeats
    if any(sorted(order[i:i + L]) != names for i in range(0, n - L + 1)) or any(order[i] != order[i - L] for i in range(L, n)):
        fail("turn", f"lights are used in the order {order}")
        return count
    if n < L and len(set(order)) != n:
        fail("turn", f"lights are used in the order {order}")
    from anytree import LevelOrderIter
    want = [x.light.name for x in LevelOrderIter(sc.root) if x.light is not None]
    if order != [want[(first + i) % L] for i in range(n)]:
        fail("turn", f"lights are used in the order {order}, expected to start with {want[first % L]}")

    def outcome(x):
        """uniform coordinates of one photon by property; and what is wrong"""
        i = int(x[3].split()[1])
        M = inv[x[3]]
        pos = M[:3, :3] @ np.array(x[0], float) + M[:3, 3]
        dr = M[:3, :3] @ np.array(x[1], float)
        kw, kp, kd = lights[i][:3]
        u1, b1 = w[kw].uniform(float(x[2]))
        u2, b2 = p[kp].uniform(pos)
        u3, b3 = d[kd].uniform(dr)
        b0 = None if x[4] == 0 and x[5] == 0 else f"a new photon has path {x[4]} and clock {x[5]}"
        return {"wavelength": u1, "position": u2, "direction": u3}, b0 or b1 or b2 or b3

    def look(devs):
        r = one(devs)
        if [x[3] for x in r] != order:
            fail("turn", f"lights are used in the order {[x[3] for x in r]} instead of {order}", devs)
            return None
        out = []
        for k, x in enumerate(r):
            u, b = outcome(x)
            if b:
                fail("mask", f"photon {k} of {x[3]}: {b}", devs)
            out.append(u)
        return out
    zero = look({})
    if zero is None:
        return count
    deps = {}
    for i in range(nd):
        prev = None
        for pr in PROBES:
            o = look({i: pr, **({(i + 1) % nd: 0.31} if nd > 1 else {})})
            if o is None:
                return count
            if prev is not None:
                for k in range(n):
                    for prop in o[k]:
                        if o[k][prop] != prev[k][prop]:
                            deps.setdefault((k, prop), set()).add(i)
            prev = o
    owner = {}
    for kp, s in deps.items():
        for i in s:
            owner.setdefault(i, []).append(kp)
    shared = {i: v for i, v in owner.items() if len({k for k, _ in v}) > 1}
    if shared:
        fail("independence", f"draw {sorted(shared)[0]} decides about several photons: {sorted(shared.values())[0]}")
    mixed = [v for v in owner.values() if len(v) > 1 and v not in shared.values()]
    for v in mixed[:1]:
        s = sorted(set().union(*(deps[x] for x in v)))
        m = max(3, int(3000 ** (1 / len(s))))
        pts = [look(dict(zip(s, t))) for t in itertools.product(grid(m), repeat=len(s))]
        k = v[0][0]
        A = np.array([sum((list(o[k][prop]) for _, prop in v), []) for o in pts if o])
        for a, b in itertools.combinations(range(A.shape[1]), 2):
            H, _, _ = np.histogram2d(A[:, a], A[:, b], bins=4, range=((0, 1), (0, 1)))
            if np.abs(H / len(A) - 1 / 16).max() > 2 / m + 0.01:
                fail("independence", f"properties {v} of one photon are not independent")
    for k in range(n):
        for prop in ("wavelength", "position", "direction"):
            dim = len(zero[k][prop])
            s = sorted(deps.get((k, prop), ()))
            if not dim:
                continue
            if not s:
                fail("law", f"the {prop} of photon {k} does not depend on any draw")
                continue
            if not fine and k not in (0, n - 1):
                continue
            total = {1: 400, 2: 1600, 3: 2744}.get(len(s), 3000) if fine else {1: 40, 2: 144, 3: 343}.get(len(s), 600)
            m = max(3, int(round(total ** (1 / len(s)))))
            pts = [look(dict(zip(s, t))) for t in itertools.product(grid(m), repeat=len(s))]
            A = np.array([o[k][prop] for o in pts if o])
            hist = prop == "wavelength" and w[lights[int(order[k].split()[1])][0]].hist
            tol = 1.05 * max(1, len(s) / dim) / m + 0.003
            for c in range(dim):
                v = np.sort(A[:, c])
                if hist:
                    vals, cnt = np.unique(v, return_counts=True)
                    sp = SPEC["bins"]
                    ref = Ref(list(sp[0]), list(sp[1]), True)
                    wants = {(ref.cum[i] + ref.cum[i + 1]) / 2: ref.w[i] for i in range(len(sp[0])) if ref.w[i] > 0}
                    dis = max(abs(wants[q] - dict(zip(vals, cnt / len(v))).get(q, 0)) for q in wants)
                    dis -= tol
                else:
                    e = np.arange(len(v))
                    dis = max(np.abs(v - e / len(v)).max(), np.abs(v - (e + 1) / len(v)).max())
                    # a product grid has m^(s-1) equal values
                if dis > tol:
                    fail("law", f"the {prop} (coordinate {c}) of photon {k} differs from its law by {dis:.4f}, grid resolution {0.5 / m:.4f}")
            for a, b in itertools.combinations(range(dim), 2):
                H, _, _ = np.histogram2d(A[:, a], A[:, b], bins=4, range=((0, 1), (0, 1)))
                if np.abs(H / len(A) - 1 / 16).max() > 1.2 / m + 0.01:
                    fail("law", f"coordinates {a} and {b} of the {prop} of photon {k} are not independent")
            if k == 0 or fine:
                ext = EXT if len(s) <= 2 else EXT[::2] + EXT[-1:]
                if not fine:
                    ext = (0.0, 2.0 ** -53, 0.5, 1 - 2.0 ** -53)
                for t in itertools.product(ext, repeat=len(s)):
                    look(dict(zip(s, t)))
            if k == 0 and not hist and path != "engine":
                devs = [dict(zip(s, t)) for t in itertools.product(grid(m), repeat=len(s))]
                for c in range(dim):
                    count += marginal(lambda ds: [look(x) for x in ds], s, (devs, [o[k][prop][c] for o in pts]), lambda o: o[k][prop][c], f"photon {k}", f"{prop} (coordinate {c})",
                                      1e-6, lambda kind, msg: fail("law", msg), 600 if fine else 150)
    return count


def job(a):
    from mc import choice
    choice.install()
    choice.DRIVER.default = 0.5
    bad, c = [], 0
    for args in a:
        try:
            c += check(*args, bad)
        except Exception as e:  # noqa
            import traceback
            bad.append((f"{args[4]}:exception", f"{args}: {type(e).__name__}: {e}", {"args": args, "trace": traceback.format_exc()}))
        if len(bad) > 20:
            break
    return len(a), c, bad


def job_turns(part):
    """0..7 photons of 1..4 lights, also continuing an earlier bundle; endless emission; subclassed lights."""
    from mc import choice
    choice.install()
    choice.DRIVER.default = 0.5
    from pvtrace import Light, Node, Scene, Material, Sphere
    from pvtrace.light.ray import Ray
    from pvtrace.engine.emit import emit_bundle
    bad, c, s = [], 0, 0
    kinds = [("none", "none", "none"), ("uneven", "rectangle", "cone"), ("function", "half", "partial cone"), ("flat", "circle", "isotropic")]
    jobs = []
    for L in (1, 2, 3, 4):
        for n in range(8):
            for first in range(0, 6):
                for rot in range(L):
                    li = tuple(kinds[(i + rot) % 4] + ((i + rot) % 4, (i * 2 + rot) % 3) for i in range(L))
                    jobs.append((li, bool((n + first) % 2), n, first))
    for i, (li, tw, n, first) in enumerate(jobs):
        if i % 8 != part:
            continue
        for path in ("single", "bundle", "engine"):
            s += 1
            sc, mats = scene(li, tw)
            r = emitters(sc, n, first)[path]() if n or path != "engine" else []
            c += 1
            order = [x[3] for x in r]
            from anytree import LevelOrderIter
            want = [x.light.name for x in LevelOrderIter(sc.root) if x.light is not None]
            if order != [want[(first + k) % len(li)] for k in range(n)]:
                bad.append((f"{path}:turn", f"{path}: {n} photons after {first} of {len(li)} lights came from {order}", {"lights": li}))
    if part == 0:
        class Comb(Light):
            def emit(self, num_rays=None):
                for k in range(num_rays):
                    yield Ray((0.0, 0.0, 0.25 * (k + 1)), (1.0, 0.0, 0.0), 321.0, source="comb")
        world = Node(name="world", geometry=Sphere(50.0, material=Material(1.0)))
        n = Node(name="n", parent=world, light=Comb(name="x"))
        n.translate((1.0, 0.0, 0.0))
        a = emit_bundle(Scene(world), 3)
        s += 1
        if not (np.abs(np.array(a[0])[:, 0] - 1).max() < 1e-12 and list(a[2]) == [321.0] * 3 and a[3] == ["comb"] * 3):
            bad.append(("bundle:light subclass", f"a light with its own emission was not asked: {a}", {}))
        for n0 in (None, 0, 1, 5):
            got = list(itertools.islice(Light(name="L").emit(n0) if n0 is not None else Light(name="L").emit(), 12))
            s += 1
            if len(got) != (12 if n0 is None else n0):
                bad.append(("light:count", f"a light asked for {n0} photons gave {len(got)}{' (documented: until terminated)' if n0 is None else ''}", {}))
    return s, c, bad[:20]


def dispatch(j):
    return {"combo": job, "turns": job_turns}[j[0]](j[1])


def main(chk):
    from mc import kernel
    kernel.ensure()
    chk.assumptions += ["laws are decided to the resolution of the draw grid plus 0.003; support and book-keeping for every explored draw, extremes included",
                        "lights are placed by rigid motions (masks promise lengths)"]
    w, p, d = masks()
    args = []
    for path in ("single", "bundle", "engine"):
        for k in w:
            args.append((((k, "none", "none", 2, 1),), False, 2, 0, path, True))
        for k in p:
            args.append(((("none", k, "none", 2, 1),), False, 2 if base.THOROUGH else 1, 0, path, True))
        for k in d:
            args.append(((("none", "none", k, 2, 1),), False, 2 if base.THOROUGH else 1, 0, path, True))
        # longer bundles of one light: photons are independent of each other
        for i, k in enumerate(sorted(set(w) | set(p) | set(d))):
            if path != "engine" or base.THOROUGH:
                args.append((((k if k in w else "flat", k if k in p else "none", k if k in d else "none", i % 4, i % 3),), False, 6 + i % 4, 0, path, False))
        combos = list(itertools.product(w, p, d))
        for i, (a, b, e) in enumerate(combos):
            if base.THOROUGH or i % 4 == {"single": 0, "bundle": 1, "engine": 2}[path]:
                args.append((((a, b, e, i % 4, i % 3),), bool(i % 2), 1, 0, path, False))
        # several lights of different kinds
        ks = [list(w), list(p), list(d)]
        for i in range(40 if not base.THOROUGH else 400):
            L = 2 + i % 2
            li = tuple((ks[0][(i + 2 * j) % len(w)], ks[1][(3 * i + j) % len(p)], ks[2][(5 * i + 2 * j) % len(d)], i + j, (i + j) % 3) for j in range(L))
            args.append((li, bool(i % 2), L + i % 3, 0 if path == "single" else i % 4, path, False))
    jobs = [("turns", k) for k in range(8)] + [("combo", args[k::64]) for k in range(64)]
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
            continue
        s, c, bad = r
        chk.add("states", s)
        chk.add("transitions", c)
        chk.add("traces_validated_against_impl", c)
        for b in bad:
            chk.violation(*b)
    for a in args[::400]:
        chk.sample({"lights": a[0], "photons": a[2], "path": a[4]})
