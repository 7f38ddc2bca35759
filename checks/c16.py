"""C16: re-emission law. Every combination of a component, emission method, absorbed wavelength and phase function is driven
through the full product grid of its random draws - the Python functions, the tracer and the compiled engine -
and the resulting set of wavelengths and directions is compared with the documented law; then through every
combination of extreme draws (0, 2^-53, 1-2^-53 ...) for what must hold for every photon.

Which draw feeds which outcome is discovered by sweeping each draw, so the order and use of draws do not matter."""
import itertools
import math

import numpy as np

from mc import base
from checks.c15 import Ref

EXT = (0.0, 5e-324, 2.0 ** -53, 1e-12, 1e-9, 1e-6, 0.25, 0.5, 0.75, 1 - 1e-6, 1 - 1e-9, 1 - 2.0 ** -53)
KB = 1.380649e-23 / 1.60217662e-19


# ---- phase functions -------------------------------------------------------------------------------------

def phases():
    gs = [0.0] + [s * g for g in (1e-14, 3e-13, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.5, 0.9, 0.99, 0.999999) for s in (1, -1)]
    cs = [1e-3, 0.1, math.pi / 6, math.pi / 4, 1.0, 1.5, math.pi / 2]
    if base.THOROUGH:
        gs += [s * g for g in (1e-11, 1e-10, 1e-8, 1e-7, 1e-5, 1e-4, 0.01, 0.25, 0.7, 0.95, 0.9999) for s in (1, -1)]
        cs += [0.01, 0.3, 0.7, 1.2, 1.57]
    return [("isotropic",)] + [("hg", g) for g in gs] + [("cone", c) for c in cs] + [("lambertian",)]


def phase_object(ph):
    from pvtrace.material import utils
    if ph[0] == "isotropic":
        return utils.isotropic
    if ph[0] == "lambertian":
        return utils.lambertian
    return {"hg": utils.HenyeyGreenstein, "cone": utils.Cone}[ph[0]](ph[1])


def phase_cdf(ph, mu):
    """Documented cumulative probability of the cosine mu with the z axis."""
    mu = np.clip(np.asarray(mu, float), -1, 1)
    if ph[0] == "isotropic":
        return (mu + 1) / 2
    if ph[0] == "hg":
        g = ph[1]
        if abs(g) < 1e-4:
            return (1 + mu) / 2 + 0.75 * g * (mu * mu - 1)
        s = ((1 - g * g) / np.sqrt(np.maximum(1 + g * g - 2 * g * mu, 0)) - 1) / g
        return (1 + s) / 2
    top = math.pi / 2 if ph[0] == "lambertian" else ph[1]
    return np.where(mu < math.cos(top) - 1e-12, 0.0, 1 - (1 - mu * mu) / math.sin(top) ** 2)


def in_support(ph, d):
    """None or what is wrong with one direction."""
    n = math.sqrt(sum(c * c for c in d))
    if not abs(n - 1) < 1e-9:
        return f"direction {d} has length {n}"
    if ph[0] in ("lambertian", "cone"):
        top = math.pi / 2 if ph[0] == "lambertian" else ph[1]
        if math.hypot(d[0], d[1]) > math.sin(top) + 1e-9 or d[2] < math.cos(top) - 1e-9:
            return f"direction {d} is outside the cone of half angle {top}"
    return None


def direction_law(ph, D, n, draws):
    """None or how the directions of a product grid with n values per draw differ from the law."""
    D = np.asarray(D, float)
    if D.size == 0 or not np.isfinite(D).all():
        return "a direction is not finite"
    for d in D[:: max(1, len(D) // 500)]:
        m = in_support(ph, tuple(d))
        if m:
            return m
    mu = D[:, 2]
    F = np.clip(phase_cdf(ph, mu), 0, 1)
    P = (np.arctan2(D[:, 1], D[:, 0]) / (2 * math.pi)) % 1.0
    slack = 0.002 + 1e-16 / max(1e-7, 1 - abs(ph[1])) ** 2 if ph[0] == "hg" else 0.002
    if ph[0] == "cone":
        # the cosine of a narrow cone is known to 1e-16 only
        slack += 2e-16 / math.sin(ph[1]) ** 2
    tol = 0.5 * draws / n + slack
    for name, v in (("polar angle", F), ("azimuth", P)):
        s = np.sort(v)
        k = np.arange(len(s))
        dis = max(np.abs(s - k / len(s)).max(), np.abs(s - (k + 1) / len(s)).max())
        if dis > tol:
            return f"the law of the {name} differs from the documented one by {dis:.4f} (grid resolution {0.5 / n:.4f})"
    # joint law: cells
    m = 8
    H, _, _ = np.histogram2d(F, P, bins=m, range=((0, 1), (0, 1)))
    dis = np.abs(H / len(D) - 1 / m ** 2).max()
    if dis > 2 * tol / m * 2 + 1e-3:
        return f"polar angle and azimuth are not independent (cell off by {dis:.4f})"
    return None


# ---- spectra ----------------------------------------------------------------------------------------------

def spectra():
    tri = ([400.0, 450.0, 455.0, 600.0, 700.0], [0.0, 1.0, 0.5, 2.0, 0.0])
    gap = ([400.0, 500.0, 500.5, 550.0, 550.5, 680.0], [1.0, 1.0, 0.0, 0.0, 2.0, 0.3])
    x = np.linspace(400, 800, 101)
    many = (x.tolist(), np.exp(-((600 - x) / 40) ** 2).tolist())
    return {"flat": ([420.0, 700.0], [1.0, 1.0]), "uneven": tri, "gap": gap, "gaussian": many}


def bound(method, nm, T):
    if method == "full":
        return None
    if method == "redshift":
        return nm
    return 1240.0 / (1240.0 / nm + 1.5 * KB * T)


class Law:
    """The emission spectrum restricted to wavelengths from `lo`."""

    def __init__(self, spec, lo, hist=False):
        self.x, self.y = spec
        self.ref = Ref(list(self.x), list(self.y), hist)
        self.hist, self.lo = hist, lo
        if lo is not None and not self.x[0] <= lo <= self.x[-1]:
            self.ok = False
            return
        self.p1 = 0.0 if lo is None else self.ref.prob(lo)
        self.ok = self.p1 < 1 - 1e-6

    def support(self, v):
        if not (math.isfinite(v) and self.x[0] <= v <= self.x[-1]):
            return f"emitted wavelength {v} is outside the emission spectrum"
        if self.lo is not None and v < self.lo * (1 - 1e-12):
            return f"emitted wavelength {v} is shorter than allowed ({self.lo})"
        return None

    def check(self, V, n, draws):
        for v in V:
            m = self.support(v)
            if m:
                return m
        V = np.sort(np.asarray(V, float))
        tol = 0.5 * draws / n + 0.002
        if self.hist:
            for i, v in enumerate(self.x):
                w = max(0.0, self.ref.cum[i + 1] - max(self.p1, self.ref.cum[i])) / (1 - self.p1)
                f = float(np.mean(V == v))
                if abs(f - w) > 2 * tol:
                    return f"bin {v} is emitted with probability {f:.4f}, its weight in the allowed range is {w:.4f}"
            if not set(V.tolist()) <= set(self.x):
                return "an emitted wavelength is no bin of the histogram"
            return None
        F = np.array([(self.ref.prob(v) - self.p1) / (1 - self.p1) for v in V])
        k = np.arange(len(F))
        dis = max(np.abs(F - k / len(F)).max(), np.abs(F - (k + 1) / len(F)).max())
        if dis > tol:
            return f"the law of the emitted wavelength differs from the restricted spectrum by {dis:.4f} (grid resolution {0.5 / n:.4f})"
        near = [i for i in range(len(self.x) - 1) if not self.ref.w[i] > 0]
        for i in near:
            if ((V > self.x[i] + 1e-9) & (V < self.x[i + 1] - 1e-9)).any():
                return f"emission between {self.x[i]} and {self.x[i + 1]}, where the spectrum is zero"
        return None


# ---- driving draws ---------------------------------------------------------------------------------------------

def grid(n):
    return [(i + 0.5) / n for i in range(n)]


def slack_of(ph):
    if ph[0] == "hg":
        return 8e-16 / max(1e-7, 1 - abs(ph[1])) ** 2
    return 2e-16 / math.sin(ph[1]) ** 2 if ph[0] == "cone" else 0.0


def marginal(run, draws, grid_values, coord, what, name, slack, fail, m):
    """A coordinate whose law is uniform and which depends on a single draw: its law on a fine sweep of that draw and, where
    it is the draw itself (or its complement), at the ends. Returns the number of executions."""
    devs, vals = grid_values
    if not draws:
        return 0
    one = None
    for i in draws:
        groups = {}
        for d, v in zip(devs, vals):
            groups.setdefault(d[i], []).append(v)
        if all(max(g) - min(g) < 1e-12 + slack for g in groups.values()) and len(groups) > 1:
            one = i
    if one is None:
        return 0
    ends = [10.0 ** -k for k in (4, 5, 6)]
    us = np.array(grid(m) + ends + [1 - e for e in ends])
    out = run([{one: float(u)} for u in us])
    if any(o is None for o in out):
        return len(us)
    v = np.array([coord(o) for o in out])
    s = np.sort(v[:m])
    k = np.arange(m)
    dis = max(np.abs(s - k / m).max(), np.abs(s - (k + 1) / m).max())
    if dis > 1.02 / m + 1e-6 + slack:
        fail(f"{name} law", f"{what}: the law of the {name} differs from the documented one by {dis:.5f} (sweep of {m} values)")
        return len(us)
    for w in (us, 1 - us):
        e = np.abs(v - w)
        if e[:m].max() < 0.02 and np.median(e[:m]) < 1e-9 + slack and e.max() > 1e-7 + slack:
            j = int(np.argmax(e))
            fail(f"{name} law", f"{what}: the {name} is not sampled from its law at draw {us[j]} (cumulative probability {v[j]}, expected {w[j]})")
            break
    return len(us)


def explore(run, ndraws, what, law, ph, total, fail, fine=0):
    """run(list of {draw: value}) -> list of (direction, wavelength) or None. Returns the number of executions."""
    n = 0
    probes = (0.03, 0.21, 0.55, 0.83, 0.97)
    devs = [{}] + [{i: p} for i in range(ndraws) for p in probes] + [{i: p, j: 0.31} for i in range(ndraws) for p in probes for j in range(ndraws) if j != i]
    out = run(devs)
    n += len(devs)
    if any(o is None for o in out):
        fail("no emission", f"{what}: draws {devs[[o is None for o in out].index(True)]} give no emission")
        return n
    deps = {"direction": set(), "wavelength": set()}
    for d, o in zip(devs, out):
        for k, name in enumerate(("direction", "wavelength")):
            if np.any(np.asarray(o[k]) != np.asarray(out[0][k])):
                deps[name] |= set(d)
    # a second draw at 0.31 is always deviated: keep only draws whose own sweep matters
    for name, k in (("direction", 0), ("wavelength", 1)):
        real = set()
        for i in deps[name]:
            for j in [None] + [j for j in range(ndraws) if j != i]:
                sel = [o[k] for d, o in zip(devs, out) if i in d and (set(d) == {i} if j is None else set(d) == {i, j} and d[j] == 0.31 and list(d)[0] == i)]
                if any(np.any(np.asarray(s) != np.asarray(sel[0])) for s in sel):
                    real.add(i)
        deps[name] = sorted(real)
    if ph is not None:
        D = deps["direction"]
        m = max(4, int(total ** (1 / max(1, len(D)))))
        devs = [dict(zip(D, v)) for v in itertools.product(grid(m), repeat=len(D))]
        out = run(devs)
        n += len(devs)
        bad = None if all(o is not None for o in out) else "some draws give no emission"
        bad = bad or direction_law(ph, [o[0] for o in out], m, len(D))
        if bad:
            fail("direction law", f"{what}: {bad}")
        elif fine:
            for name, coord in (("polar angle", lambda o: float(np.clip(phase_cdf(ph, o[0][2]), 0, 1))), ("azimuth", lambda o: math.atan2(o[0][1], o[0][0]) / (2 * math.pi) % 1.0)):
                n += marginal(run, D, (devs, [coord(o) for o in out]), coord, what, name, slack_of(ph) if name == "polar angle" else 1e-9, fail, fine)
        if not D and ph != ("cone", 0):
            fail("direction law", f"{what}: the direction does not depend on any draw")
    W = deps["wavelength"]
    if law is not None:
        m = max(4, int(min(400, total) ** (1 / max(1, len(W)))))
        devs = [dict(zip(W, v)) for v in itertools.product(grid(m), repeat=len(W))]
        out = run(devs)
        n += len(devs)
        bad = None if all(o is not None for o in out) else "some draws give no emission"
        bad = bad or law.check([o[1] for o in out], m, len(W))
        if bad:
            fail("wavelength law", f"{what}: {bad}")
        elif fine and not law.hist:
            coord = lambda o: (law.ref.prob(o[1]) - law.p1) / (1 - law.p1)
            n += marginal(run, W, (devs, [coord(o) for o in out]), coord, what, "wavelength", 1e-9 / (1 - law.p1), fail, fine)
    if set(W) & set(deps["direction"]):
        # wavelength and direction share a draw: they must be independent all the same
        both = sorted(set(W) | set(deps["direction"]))
        m = max(4, int(total ** (1 / len(both))))
        devs = [dict(zip(both, v)) for v in itertools.product(grid(m), repeat=len(both))]
        out = run(devs)
        n += len(devs)
        if law is not None and ph is not None:
            F = np.clip(phase_cdf(ph, [o[0][2] for o in out]), 0, 1)
            G = np.array([(law.ref.prob(o[1]) - law.p1) / (1 - law.p1) for o in out])
            H, _, _ = np.histogram2d(F, G, bins=4, range=((0, 1), (0, 1)))
            if np.abs(H / len(out) - 1 / 16).max() > 2 / m + 0.01:
                fail("independence", f"{what}: wavelength and direction are not independent")
    # extremes of every draw which matters
    both = sorted(set(W) | set(deps["direction"]))
    ext = EXT if len(both) <= 2 else EXT[::2] + EXT[-1:] if len(both) == 3 else (0.0, 0.5, 1 - 2.0 ** -53)
    devs = [dict(zip(both, v)) for v in itertools.product(ext, repeat=len(both))]
    for d, o in zip(devs, run(devs)):
        n += 1
        if o is None:
            fail("extreme draws", f"{what}: draws {d} give no emission")
            break
        m = in_support(ph, tuple(o[0])) if ph is not None else None
        if m is None and law is not None and not (law.hist and any(v < 1e-8 for v in d.values())):
            m = law.support(o[1])
        if m:
            fail("extreme draws", f"{what}: draws {d}: {m}")
            break
    return n


class Fails:
    def __init__(self, who):
        self.who, self.bad, self.n = who, [], {}

    def __call__(self, kind, msg):
        self.n[kind] = self.n.get(kind, 0) + 1
        if self.n[kind] <= 2:
            self.bad.append((f"{self.who}:{kind}", f"{self.who}, {msg}", {"what": msg}))


def python_run(fn):
    from mc.choice import DRIVER

    def run(devs):
        out = []
        for d in devs:
            DRIVER.start(d)
            out.append(fn())
        return out
    DRIVER.start({})
    fn()
    return run, DRIVER.n


# ---- jobs ------------------------------------------------------------------------------------------------------

def job_phase(ph):
    """The phase functions themselves, as function and as object."""
    from mc import choice
    choice.install()
    choice.DRIVER.default = 0.5
    from pvtrace.material import utils
    f = Fails("phase function")
    n = c = 0
    forms = [phase_object(ph)]
    if ph[0] == "hg":
        forms.append(lambda: utils.henyey_greenstein(ph[1]))
    if ph[0] == "cone":
        forms.append(lambda: utils.cone(ph[1]))
    for fn in forms:
        run, k = python_run(lambda: (tuple(np.asarray(fn(), float).tolist()), 0.0))
        n += explore(run, k, f"{ph}", None, ph, 14400 if not base.THOROUGH else 90000, f, 2000)
        c += 1
    # the mean cosine of Henyey-Greenstein is g
    if ph[0] == "hg":
        run, k = python_run(lambda: (tuple(np.asarray(forms[0](), float).tolist()), 0.0))
        pts = [dict(zip(range(k), v)) for v in itertools.product(grid(100), repeat=min(2, k))]
        m = float(np.mean([o[0][2] for o in run(pts)]))
        n += len(pts)
        if not abs(m - ph[1]) < 0.01:
            f("mean cosine", f"{ph}: mean cosine is {m}")
    return c, n, f.bad


def absorbed(spec, method, T):
    x = spec[0]
    out = []
    for v in sorted(set(list(x)[:6] + [x[0] + (x[-1] - x[0]) * q for q in (0.02, 0.1, 0.25, 0.5, 0.75, 0.9)] +
                        ([x[0] - 50, x[-1] + 50] if method == "full" else []))):
        out.append(float(v))
    return out


def job_emit(a):
    """Component.emit of the Python classes."""
    name, method, hist = a
    from mc import choice
    choice.install()
    choice.DRIVER.default = 0.5
    from pvtrace import Luminophore, Scatterer
    from pvtrace.light.ray import Ray
    spec = spectra()[name]
    f = Fails("component")
    n = c = 0
    for nm in absorbed(spec, method, 300):
        for T in ((300.0, 0.0, 600.0) if method == "kT" else (300.0,)):
            law = Law(spec, bound(method, nm, T), hist)
            if not law.ok:
                continue
            for tau in (None, (1e-9, 1e-9)):
                for ph in (("isotropic",), ("cone", 0.5)):
                    kw = dict(tau_rad=tau[0], tau_nr=tau[1]) if tau else {}
                    comp = Luminophore(1.0 if not hist else np.column_stack(spec), emission=np.column_stack(spec), hist=hist, name="dye",
                                       phase_function=phase_object(ph), **kw)
                    ray = Ray((0.1, 0.2, 0.3), (0.6, 0.0, 0.8), nm, source="lamp")

                    def fn():
                        e = dict(method=method)
                        if T != 300.0:
                            e["T"] = T
                        r = comp.emit(ray, **e)
                        if tuple(r.position) != tuple(ray.position) or r.source != "dye":
                            f("photon", f"{name} {method}: re-emission moved the photon or lost its source")
                        return tuple(np.asarray(r.direction, float).tolist()), float(r.wavelength)
                    run, k = python_run(fn)
                    n += explore(run, k, f"{name}{' histogram' if hist else ''} spectrum, {method} at T={T}, absorbed {nm}, {ph}", law, ph, 900, f, 300)
                    c += 1
                    if method == "kT" and T == 300.0:
                        break
    if name == "flat" and method == "kT" and not hist:
        # defaults: method kT, T 300, default emission
        x = np.linspace(400, 800, 201)
        comp = Luminophore(np.column_stack((x, np.ones(201))), x=x, name="dye")
        law = Law((x.tolist(), np.exp(-((600 - x) / 40) ** 2).tolist()), bound("kT", 590.0, 300.0))
        ray = Ray((0, 0, 0), (0, 0, 1), 590.0)
        run, k = python_run(lambda: (lambda r: (tuple(np.asarray(r.direction, float).tolist()), float(r.wavelength)))(comp.emit(ray)))
        n += explore(run, k, "default luminophore", law, ("isotropic",), 900, f, 300)
        for ph in (("isotropic",), ("hg", 0.7), ("cone", 0.4), ("lambertian",)):
            comp = Scatterer(1.0, phase_function=None if ph == ("isotropic",) else phase_object(ph), name="fog")
            for m in ("kT", "redshift", "full"):
                def fn():
                    r = comp.emit(ray, method=m)
                    if r.wavelength != 590.0 or r.source != "fog":
                        f("scatterer", f"scattering changed the wavelength to {r.wavelength}")
                    return tuple(np.asarray(r.direction, float).tolist()), float(r.wavelength)
                run, k = python_run(fn)
                n += explore(run, k, f"scatterer {ph}", None, ph, 900, f, 300)
                c += 1
    return c, n, f.bad


PLACE = {"rest": None, "turned": ((0.5, -1.0, 0.25), 1.1, (1.0, -2.0, 0.5))}


def scene(kind, ph, spec, nm, place, tau):
    from pvtrace import Node, Scene, Material, Sphere, Box, Light, Luminophore, Scatterer
    from pvtrace.light.light import ConstantWavelengthMask
    kw = dict(tau_rad=tau, tau_nr=1e3) if tau else {}
    phase = phase_object(ph)
    comp = Scatterer(10.0, phase_function=phase, name="fog", quantum_yield=1.0) if kind == "scatterer" else \
        Luminophore(10.0, emission=np.column_stack(spec), phase_function=phase, name="dye", **(kw if tau else {"quantum_yield": 1.0}))
    world = Node(name="world", geometry=Sphere(50.0, material=Material(1.0)))
    node = Node(name="it", parent=world, geometry=Box((8.0, 8.0, 8.0), material=Material(1.0, components=[comp])))
    if PLACE[place]:
        node.location = PLACE[place][0]
        node.rotate(*PLACE[place][1:])
    lamp = Node(name="lamp", parent=world, light=Light(wavelength=ConstantWavelengthMask(nm), name="lamp"))
    lamp.location = node.location
    return Scene(world), np.array(node.pose)[:3, :3].T


def first_emission(h, R, nm, kind, f, what):
    ev = [(r, e.name) for r, e, _ in h]
    for (r0, a), (r, b) in zip(ev, ev[1:]):
        if a == "ABSORB":
            if b not in ("EMIT", "SCATTER"):
                return None
            if kind == "scatterer" and r.wavelength != nm:
                f("scatterer", f"{what}: scattering changed the wavelength to {r.wavelength}")
            return tuple((R @ np.asarray(r.direction, float)).tolist()), float(r.wavelength)
    return None


def job_full(a):
    """The engine (or the tracer) on a scene with one component."""
    who, kind, name, method, nm, ph, place, tau = a
    spec = spectra()[name]
    law = None if kind == "scatterer" else Law(spec, bound(method, nm, 300.0))
    if law is not None and not law.ok:
        return 0, 0, []
    f = Fails(who)
    what = f"{kind}, {name} spectrum, {method}, absorbed {nm}, {ph}, container {place}, lifetime {tau}"
    if who == "engine":
        from mc import kernel
        from pvtrace import engine
        sc, R = scene(kind, ph, spec, nm, place, tau)

        def run(devs):
            out = []
            for c in range(0, len(devs), 20000):
                part = devs[c:c + 20000]
                with kernel.Script([tuple(sorted(d.items())) for d in part]) as s:
                    res = engine.simulate(sc, len(part), seed=s.seed, workers=1, maxsteps=2, max_events=8, record_every=1, emit_method=method)
                run.used = int(s.used[0])
                out += [first_emission(h, R, nm, kind, f, what) for h in res.histories()]
            return out
        run([{}])
        n = explore(run, run.used, what, law, ph, 6400 if not base.THOROUGH else 40000, f, 600)
    else:
        from mc import choice
        choice.install()
        choice.DRIVER.default = 0.5
        from pvtrace import photon_tracer
        sc, R = scene(kind, ph, spec, nm, place, tau)
        from pvtrace.light.ray import Ray
        ray = Ray(tuple(sc.root.children[0].location), (0.0, 0.0, 1.0), nm, source="lamp")

        def fn():
            h = []
            for x in photon_tracer.step_forward(sc, ray, maxsteps=2, emit_method=method):
                h.append(x)
                if x[1].name in ("EMIT", "SCATTER", "EXIT"):
                    break
            return first_emission(h, R, nm, kind, f, what)
        run, k = python_run(fn)
        n = explore(run, k, what, law, ph, 400 if not base.THOROUGH else 2500, f)
    return 1, n, f.bad


# (kind, quantum yield, radiative lifetime, non-radiative lifetime)
LIVES = [("luminophore", None, 1e-9, 3e-9), ("luminophore", None, 4e-9, 1e-9), ("luminophore", 0.7, 2e-9, None), ("luminophore", 0.7, None, 5e-9), ("luminophore", 0.25, None, None),
         ("absorber", None, None, 2e-9), ("absorber", None, None, None), ("reactor", None, None, None), ("scatterer", 0.6, None, 3e-9), ("scatterer", None, 1e-9, 4e-9)]


def job_life(a):
    """How often and how long after it was absorbed a photon is emitted, or lost."""
    who, (kind, qy, rad, nr) = a
    from pvtrace import Absorber, Box, Light, Luminophore, Material, Node, Reactor, Scatterer, Scene, Sphere
    from pvtrace.light.light import ConstantWavelengthMask
    kw = {k: v for k, v in (("quantum_yield", qy), ("tau_rad", rad), ("tau_nr", nr)) if v is not None}
    comp = Absorber(10.0, name="it", **kw) if kind == "absorber" else Reactor(10.0, name="it") if kind == "reactor" else \
        Scatterer(10.0, name="it", **kw) if kind == "scatterer" else Luminophore(10.0, emission=np.column_stack(spectra()["flat"]), name="it", **kw)
    world = Node(name="world", geometry=Sphere(50.0, material=Material(1.0)))
    node = Node(name="box", parent=world, geometry=Box((8.0, 8.0, 8.0), material=Material(1.5, components=[comp])))
    lamp = Node(name="lamp", parent=world, light=Light(wavelength=ConstantWavelengthMask(500.0), name="lamp"))
    lamp.location = node.location
    sc = Scene(world)
    want = 0.0 if kind in ("absorber", "reactor") else qy if qy is not None else nr / (nr + rad)
    tau = {"R": (rad or 0.0) if kind == "luminophore" else 0.0, "N": nr or 0.0}
    free = {"R": kind == "scatterer" and rad is not None, "N": False}   # not documented
    f = Fails(who)
    what = f"{kind}, quantum yield {qy}, lifetimes {rad} and {nr}"

    def end(h):
        for (r0, e0), (r, e) in zip(h, h[1:]):
            if e0 == "ABSORB":
                if e not in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
                    return None
                return "R" if e in ("EMIT", "SCATTER") else "N", r.duration - r0.duration
        return None
    if who == "engine":
        from mc import kernel
        from pvtrace import engine

        def run(devs):
            with kernel.Script([tuple(sorted(d.items())) for d in devs]) as s:
                res = engine.simulate(sc, len(devs), seed=s.seed, workers=1, maxsteps=2, max_events=8, record_every=1, emit_method="full")
            run.used = max(run.used, int(np.max(s.used)))
            return [end([(r, e.name) for r, e, _ in h]) for h in res.histories()]
        run.used = 0
        run([{}, {1: 0.999999}, {2: 0.999999}, {0: 0.999999}])
        k = max(run.used, 12)
    else:
        from mc import choice
        choice.install()
        choice.DRIVER.default = 0.5
        from pvtrace import photon_tracer
        from pvtrace.light.ray import Ray
        ray = Ray((0.0, 0.0, 0.0), (0.0, 0.0, 1.0), 500.0, source="lamp")

        def fn():
            h = []
            for x in photon_tracer.step_forward(sc, ray, maxsteps=2, emit_method="full"):
                h.append((x[0], x[1].name))
                if x[1].name in ("EMIT", "SCATTER", "EXIT", "NONRADIATIVE", "REACT"):
                    break
            return end(h)
        run, k = python_run(fn)
        k = max(k, 12)
    n, m = 0, 240
    g = [float(x) for x in grid(m)]
    # which draws decide between emission and loss
    sweeps = {}
    for i in range(k):
        sweeps[i] = run([{i: x} for x in g])
        n += m
        sweeps[i] = [o for o in sweeps[i] if o is not None]   # free path out of the box
        if not sweeps[i]:
            f("lifetimes", f"{what}: draw {i} leaves no photon absorbed")
            return 1, n, f.bad
    deciding = [i for i in range(k) if len({o[0] for o in sweeps[i]}) == 2]
    if 0 < want < 1:
        if len(deciding) != 1:
            # several draws decide together: the product of them all
            devs = [dict(zip(deciding, v)) for v in itertools.product(grid(20), repeat=max(1, len(deciding)))] if deciding else [{}]
            out = [o for o in run(devs) if o is not None]
        else:
            out = sweeps[deciding[0]]
        got = sum(o[0] == "R" for o in out) / len(out)
        if abs(got - want) > 1 / m + 0.06 * (len(deciding) != 1) + 1e-9:
            f("quantum yield", f"{what}: {got:.3f} of the absorbed photons are emitted, the quantum yield is {want:.3f}")
    else:
        sort = "R" if want == 1 else "N"
        if any(o[0] != sort for s in sweeps.values() for o in s):
            f("quantum yield", f"{what}: photons are {'lost' if want else 'emitted'}, the quantum yield is {want}")
    for sort in "RN":
        base_ = None
        for i in deciding or [None]:
            for x in ([0.001, 0.999] if i is not None else [0.5]):
                o = run([{i: x}])[0] if i is not None else run([{}])[0]
                if o is not None and o[0] == sort:
                    base_ = {i: x} if i is not None else {}
        if base_ is None or free[sort]:
            continue
        t = tau[sort]
        name = "emission" if sort == "R" else "loss"
        late = {}
        for i in range(k):
            if i in base_:
                continue
            out = run([{**base_, i: x} for x in g + [0.0, 1 - 2.0 ** -53]])
            n += m + 2
            out = [o for o in out[:m] if o is not None and o[0] == sort], [o for o in out[m:] if o is not None and o[0] == sort]
            d = [o[1] for o in out[0]]
            if not d:
                continue
            if not all(math.isfinite(o[1]) and o[1] >= -1e-20 for o in out[0] + out[1]):
                f("lifetimes", f"{what}: a delay of {min(o[1] for o in out[0] + out[1])} s before {name}")
            if max(d) - min(d) > 1e-6 * (t or 1e-9):
                late[i] = d
            elif t == 0 and max(map(abs, d)) > 1e-20:
                f("lifetimes", f"{what}: {name} is delayed by {max(d)} s")
        if t == 0 and late:
            f("lifetimes", f"{what}: {name} is delayed without a lifetime")
        if t > 0:
            if not late:
                f("lifetimes", f"{what}: the delay before {name} does not vary, the lifetime is {t}")
                continue
            if len(late) == 1:
                d = next(iter(late.values()))
            else:
                D = sorted(late)
                out = run([{**base_, **dict(zip(D, v))} for v in itertools.product(grid(int(1600 ** (1 / len(D)))), repeat=len(D))])
                d = [o[1] for o in out if o is not None and o[0] == sort]
            u = np.sort(1 - np.exp(-np.array(d) / t))
            off = np.abs(u - (np.arange(len(u)) + 0.5) / len(u)).max()
            if len(d) < m // 2 or off > 1 / m + 0.002 + 0.1 * (len(late) > 1):
                f("lifetimes", f"{what}: the delay before {name} is not exponential with lifetime {t}: off by {off:.3f}, mean {np.mean(d)}")
    return 1, n, f.bad


JOBS = {"phase": job_phase, "emit": job_emit, "full": job_full, "life": job_life}


def dispatch(j):
    return JOBS[j[0]](j[1])


def main(chk):
    from mc import kernel
    kernel.ensure()
    chk.assumptions += ["laws are decided to the resolution of the draw grid plus 0.002; what must hold for every photon is also checked for all combinations of extreme draws",
                        "absorbed wavelengths (after the thermal allowance) lie in the emission spectrum and have emission above them: otherwise no re-emission is allowed and the tracer raises (documented)",
                        "histogram spectra: the bin which contains the absorbed wavelength is not emitted, and a draw below 1e-8 is not decided (rounding decides about that bin)"]
    jobs = [("phase", p) for p in phases()]
    for name in spectra():
        for m in ("kT", "redshift", "full"):
            for hist in (False, True):
                jobs.append(("emit", (name, m, hist)))
    sup = [p for p in phases() if p[0] != "lambertian"]
    some = [("isotropic",), ("hg", 0.5), ("hg", -0.9), ("cone", math.pi / 6)]
    for place in PLACE:
        jobs += [("full", ("engine", "scatterer", "flat", "kT", 500.0, p, place, None)) for p in (sup if place == "rest" or base.THOROUGH else some)]
        jobs += [("full", ("tracer", "scatterer", "flat", "kT", 500.0, p, place, None)) for p in some + [("lambertian",)]]
    for name in spectra():
        for m in ("kT", "redshift", "full"):
            for i, nm in enumerate(absorbed(spectra()[name], m, 300)):
                jobs.append(("full", ("engine", "luminophore", name, m, nm, some[i % 4], "rest" if i % 2 else "turned", 1e-9 if i % 3 == 0 else None)))
                if i % 3 == 1 or base.THOROUGH:
                    jobs.append(("full", ("tracer", "luminophore", name, m, nm, some[(i + 1) % 4], "turned" if i % 2 else "rest", 1e-9 if i % 2 else None)))
    jobs += [("life", (who, l)) for who in ("engine", "tracer") for l in LIVES]
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"job": j, "trace": r[1]})
            continue
        c, n, bad = r
        chk.add("states", c)
        chk.add("transitions", n)
        chk.add("traces_validated_against_impl", n)
        for b in bad:
            chk.violation(*b)
    chk.sample({"phase functions": [list(p) for p in phases()]})
    chk.sample({"extreme draws": list(EXT)})
    chk.sample({"spectra": {k: v for k, v in spectra().items() if k != "gaussian"}})
