"""C19: the LSC device. Each device configuration (solar cells, mirrors, films, components, lights) is driven through all bounded
deviations of its random draws for photons starting on a lattice around and inside the slab, and through all sequences
of simulating, reporting and late building steps up to a depth. A twin - a scene built from the public classes with
surface behaviour written down from the device's documentation - is traced under the same draws; every query
of the device (spectra by facet, kind, source and event; counts; summary) must be the recount of the twin's histories."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np

from mc import base

SIZE = (4.0, 3.0, 1.0)
FACETS = ("left", "right", "near", "far", "top", "bottom")
NORMAL = {"left": (-1, 0, 0), "right": (1, 0, 0), "near": (0, -1, 0), "far": (0, 1, 0), "bottom": (0, 0, -1), "top": (0, 0, 1)}
X = np.arange(400.0, 801.0, 10.0)


def lum(scale, qy=1.0, phase=None):
    return dict(coefficient=np.column_stack((X, scale * np.exp(-((X - 520) / 60) ** 2))), emission=np.column_stack((X, np.exp(-((X - 620) / 40) ** 2))), quantum_yield=qy, phase_function=phase)


def components(kind):
    """[(kind, name, arguments)]"""
    from pvtrace.material.utils import Cone
    return {"absorber": [("absorber", "PMMA", dict(coefficient=0.4))],
            "dye": [("luminophore", "dye", lum(2.0))],
            "poor dye": [("luminophore", "dye", lum(1.5, 0.5)), ("absorber", "PMMA", dict(coefficient=0.2))],
            "two dyes": [("luminophore", "dye", lum(1.0, 0.9)), ("absorber", "lamp d", dict(coefficient=0.1)), ("luminophore", "dye 2", lum(0.7, 1.0, Cone(1.2)))],
            "haze": [("scatterer", "haze", dict(coefficient=0.8)), ("absorber", "PMMA", dict(coefficient=0.1))],
            "forward haze": [("scatterer", "haze", dict(coefficient=1.0, phase_function=Cone(0.5)))],
            "spectrum": [("absorber", "edge", dict(coefficient=np.column_stack((X, np.where(X < 550, 3.0, 0.01)))))],
            "default": []}[kind]


def starts():
    """[(position, direction)] in world frame"""
    def u(*v):
        return tuple((np.array(v, float) / np.linalg.norm(v)).tolist())
    out = [((0.3, 0.2, 2.0), u(0, 0, -1)), ((0.3, 0.2, 2.0), u(0.3, 0.1, -1)), ((0.3, 0.2, 2.0), u(-0.9, 0.5, -1)), ((-1.9, -1.4, 0.7), u(0.2, 0.1, -1)),  # from above
           ((0.3, 0.2, -3.0), u(0, 0, 1)), ((0.3, 0.2, -3.0), u(0.2, -0.3, 1)),  # from below
           ((-6.0, 0.4, 0.2), u(1, 0, 0)), ((6.0, 0.4, 0.2), u(-1, 0.1, 0.02)), ((0.3, -5.0, 0.1), u(0.1, 1, 0)), ((0.3, 5.0, 0.1), u(0, -1, -0.03)),  # from the sides
           ((-6.0, 0.4, -0.56), u(1, 0, 0)), ((-2.5, 0.4, -0.56), u(1, 0.1, -0.03)), ((-2.5, 0.4, -0.56), u(1, 0.1, 0.02)), ((-5.0, 0.2, -0.75), u(1, 0, 0.01)),  # into the gap, at the film
           ((2.0, 0.3, 4.0), u(0, 0.2, 1)), ((0.4, 1.5, 3.0), u(0, 0, 1)), ((8.0, 0.3, 0.5), u(0, 1, 0)), ((0.3, 0.2, 2.0), u(1, 0, 0)), ((-2.0, 3.0, -0.5), u(0, 0, -1))]  # past the slab, in the planes of its facets
    for d in NORMAL.values():
        out.append(((0.1, -0.2, 0.15), u(*d)))  # inside, towards every facet
    out += [((-0.5, 0.6, -0.1), u(1, 0.8, 0.7)), ((0.5, 0.6, 0.1), u(-1, 0.3, -0.3)), ((0.7, -0.5, 0.2), u(0.1, 1, 0.2)), ((0.2, 0.1, 0.3), u(-0.2, -1, -0.1)), ((0.2, 0.1, 0.3), u(0.05, 0.1, -1)), ((1.4, 0.9, 0.3), u(1, 0.7, 0.13))]
    return out


class Lamp:
    """One delegate object per photon property; each counts its own calls."""

    def __init__(self, items, k):
        self.items, self.k, self.i = items, k, 0

    def __call__(self):
        v = self.items[self.i % len(self.items)][self.k]
        self.i += 1
        return v


def device(cfg, lights):
    """lights: [(name, items)] -> LSC"""
    from pvtrace.device.lsc import LSC
    kw = {} if cfg.get("n") is None else dict(n0=cfg["n"][0], n1=cfg["n"][1])
    lsc = LSC(SIZE, wavelength_range=X if cfg.get("range") else None, **kw)
    steps = [lambda: build_components(lsc, cfg), lambda: build_surfaces(lsc, cfg), lambda: build_lights(lsc, lights)]
    for i in cfg.get("order", (0, 1, 2)):
        steps[i]()
    return lsc


def build_components(lsc, cfg):
    for kind, name, kw in components(cfg["components"]):
        getattr(lsc, "add_" + kind)(name, **kw)


def build_surfaces(lsc, cfg):
    for c in cfg["cells"]:
        lsc.add_solar_cell(c)
    if cfg["mirror"] == "back":
        lsc.add_back_surface_mirror()
    elif cfg["mirror"]:
        lsc.add_air_gap_mirror(lambertian=cfg["mirror"] == "lambertian")


def build_lights(lsc, lights):
    for name, items in lights:
        lsc.add_light(name, (0.0, 0.0, 0.0), position=Lamp(items, 0), direction=Lamp(items, 1), wavelength=Lamp(items, 2))


def cells_of(cfg):
    return set().union(*cfg["cells"]) if cfg["cells"] else set()


def twin(cfg, lights, cells=None):
    """The scene the device documents."""
    from pvtrace import Node, Scene, Material, Box, Light, Absorber, Luminophore, Scatterer
    from pvtrace.material.surface import Surface, FresnelSurfaceDelegate
    from pvtrace.material.utils import lambertian
    from pvtrace.data import lumogen_f_red_305
    cells = cells_of(cfg) if cells is None else cells

    def facet(geometry, ray):
        n = geometry.normal(ray.position)
        return next(f for f, v in NORMAL.items() if np.dot(v, n) > 0.99)

    class Slab(FresnelSurfaceDelegate):
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            f = facet(geometry, ray)
            if f == "bottom" and cfg["mirror"] == "back":
                return 1.0
            if f in cells:
                return 0.0
            return super().reflectivity(surface, ray, geometry, container, adjacent)

        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            if facet(geometry, ray) in cells:
                return ray.direction
            return super().transmitted_direction(surface, ray, geometry, container, adjacent)

    class Film(FresnelSurfaceDelegate):
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return 1.0

        def reflected_direction(self, surface, ray, geometry, container, adjacent):
            if cfg["mirror"] == "lambertian":
                if facet(geometry, ray) != "top":
                    raise NotImplementedError
                return tuple(lambertian().tolist())
            n = np.array(geometry.normal(ray.position), float)
            d = np.array(ray.direction, float)
            return tuple((d - 2 * np.dot(d, n) * n).tolist())
    n0, n1 = cfg.get("n") or (1.0, 1.5)
    world = Node(name="world", geometry=Box(tuple(100 * s for s in SIZE), material=Material(n0)))
    comps = [{"absorber": Absorber, "luminophore": Luminophore, "scatterer": Scatterer}[k](kw["coefficient"], name=nm, **{a: b for a, b in kw.items() if a != "coefficient"})
             for k, nm, kw in components(cfg["components"])]
    if cfg["components"] == "default":
        x = X if cfg.get("range") else np.arange(400, 800)
        comps = [Luminophore(np.column_stack((x, lumogen_f_red_305.absorption(x) * 10.0)), emission=np.column_stack((x, lumogen_f_red_305.emission(x))), name="Lumogen F Red 305"), Absorber(0.1, name="Background")]
    Node(name="slab", parent=world, geometry=Box(SIZE, material=Material(n1, components=comps, surface=Surface(delegate=Slab()))))
    if cfg["mirror"] in ("specular", "lambertian"):
        film = Node(name="film", parent=world, geometry=Box((SIZE[0], SIZE[1], 0.25 * SIZE[2]), material=Material(n0, surface=Surface(delegate=Film()))))
        film.translate((0, 0, -0.75 * SIZE[2]))
    for name, items in lights:
        Node(name=name, parent=world, light=Light(position=Lamp(items, 0), direction=Lamp(items, 1), wavelength=Lamp(items, 2), name=name))
    return Scene(world), [c.name for c in comps]


def facet_at(p):
    """Name of the facet a point of the slab's surface is on."""
    p, h = np.array(p, float), 0.5 * np.array(SIZE)
    if (np.abs(p) > h + 1e-9).any():
        return None
    for f, v in NORMAL.items():
        a = int(np.argmax(np.abs(v)))
        if abs(p[a] - v[a] * h[a]) < 1e-12:
            return f
    return None


def records(h):
    """(first, last) record of a history: (wavelength, source, event, facet)"""
    ray, ev = h[1][:2]
    first = (ray.wavelength, ray.source, ev.name.lower(), facet_at(ray.position))
    name = h[-1][1].name
    if name == "EXIT":
        last = len(h) - 2
        for i in range(last, 0, -1):
            if (np.abs(h[i][0].position) <= 0.5 * np.array(SIZE) + 1e-9).all():
                last = i
                break
    elif name in ("NONRADIATIVE", "REACT"):
        last = len(h) - 2
    else:
        last = len(h) - 1
    ray, ev = h[last][:2]
    return first, (ray.wavelength, ray.source, ev.name.lower(), facet_at(ray.position))


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def same(a, b):
    a, b = sorted(float(x) for x in a), sorted(b)
    return len(a) == len(b) and all(abs(x - y) < 1e-7 for x, y in zip(a, b))


def ratio(a, b):
    return a / b if b else (math.nan if not a else math.inf)


def close(a, b):
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-9


def compare(lsc, first, last, comps, lights, cells, full=True):
    """Everything the device reports against the records. -> what differs, or None"""
    for f, rec in (("first", first), ("last", last), (None, first + last)):
        q = quiet(lsc.spectrum, kind=f)
        if not same(q, [r[0] for r in rec]):
            return f"spectra (kind={f})", f"{len(q)} records {sorted(map(float, q))}, the histories give {sorted(r[0] for r in rec)}"
        for s in comps + lights:
            q = quiet(lsc.spectrum, kind=f, source=s)
            if not same(q, [r[0] for r in rec if r[1] == s]):
                return "sources", f"kind={f} source={s}: {sorted(map(float, q))}, the histories give {sorted(r[0] for r in rec if r[1] == s)}"
        for fc in FACETS:
            q = quiet(lsc.spectrum, kind=f, facets={fc})
            if not same(q, [r[0] for r in rec if r[3] == fc]):
                return "facets", f"kind={f} facet={fc}: {sorted(map(float, q))}, the histories give {sorted(r[0] for r in rec if r[3] == fc)}"
        for ev in ("absorb", "transmit", "reflect", "generate", "kill", "exit"):
            q = quiet(lsc.spectrum, kind=f, events={ev})
            if not same(q, [r[0] for r in rec if r[2] == ev]):
                return "events", f"kind={f} event={ev}: {sorted(map(float, q))}, the histories give {sorted(r[0] for r in rec if r[2] == ev)}"
        if full:
            for fc, s, ev in itertools.product((("left", "right", "near", "far"), ("top", "bottom"), ("left",), ()), (comps, lights, comps + lights), (("transmit",), ("reflect", "absorb"), None)):
                want = [r[0] for r in rec if (not fc or r[3] in fc) and r[1] in s and (ev is None or r[2] in ev)]
                q = quiet(lsc.spectrum, kind=f, facets=list(fc), source=set(s), events=ev and list(ev))
                if not same(q, want):
                    return "queries", f"kind={f} facets={fc} sources={s} events={ev}: {sorted(map(float, q))}, the histories give {sorted(want)}"
    c = quiet(lsc.counts)
    for col, rec, src in (("Solar In", first, lights), ("Solar Out", last, lights), ("Luminescent In", first, comps), ("Luminescent Out", last, comps)):
        for fc in FACETS:
            want = sum(r[3] == fc and r[1] in src for r in rec)
            if int(c[col][fc]) != want:
                return "counts", f"{col} {fc} is {c[col][fc]}, the histories give {want}"
    s = quiet(lsc.summary)
    edge = sum(r[3] in cells and r[1] in comps for r in last)
    esc = sum(r[3] is not None and r[3] not in cells and r[1] in comps for r in last)
    inc = sum(r[3] is not None and r[1] in lights for r in first)
    lost = sum(r[2] == "absorb" for r in last)
    for k, v in (("Optical Efficiency", ratio(edge, inc)), ("Waveguide Efficiency", ratio(edge, edge + esc)), ("Non-radiative Loss (fraction):", ratio(lost, inc)), ("Incident", inc),
                 ("Geometric Concentration", SIZE[0] * SIZE[1] / (2 * SIZE[0] * SIZE[2] + 2 * SIZE[1] * SIZE[2]))):
        if not close(s[k], v):
            return "summary", f"{k} is {s[k]}, the histories give {v}"
    for k, v in (("Cell Surfaces", cells), ("Components", set(comps)), ("Lights", set(lights))):
        if set(s[k]) != v:
            return "summary", f"{k} are {s[k]}, expected {v}"
    return None


def follow(scene, ray, method):
    from pvtrace.algorithm import photon_tracer
    return list(photon_tracer.step_forward(scene, ray, emit_method=method))


ALPHA = (0.02, 0.35, 0.75, 0.98)


def job_tree(a):
    """All deviations of the draws of single photons."""
    from mc import choice
    cfg, sel, B, depth = a
    bad = []
    n = 0
    st = starts()
    choice.install()
    for si in sel:
        p, d = st[si]
        if cfg["mirror"] == "lambertian" and (p[2] < -0.6 or (p[2] < 0 and abs(p[0]) > 2)):
            continue  # the Lambertian film is documented to have a top only
        items = [(p, d, 500.0 + si)]
        lights = [("lamp", items)]
        scene, comps = twin(cfg, lights)
        method = cfg.get("method", "kT")

        def run(devs):
            choice.DRIVER.start(devs)
            ray = next(iter(scene.emit(1)))
            h = follow(scene, ray, method)
            return h, min(choice.DRIVER.n, depth)
        lsc, first, last, done = None, [], [], []
        for devs, k, h in choice.explore(run, ALPHA, B):
            if lsc is None or len(done) >= 10:
                lsc, first, last, done = device(cfg, lights), [], [], []
            choice.DRIVER.start(devs)
            quiet(lsc.simulate, 1, emit_method=method)
            f, l = records(h)
            first.append(f)
            last.append(l)
            done.append(devs)
            n += 1
            if len(done) in (1, 10):
                w = compare(lsc, first, last, comps, ["lamp"], cells_of(cfg), len(done) == 10)
                if w and len(bad) < 4:
                    bad.append((w[0], f"{describe(cfg)}, photons from {p} along {d}: {w[1]}", {"device": describe(cfg), "position": p, "direction": d, "draws of each photon": done, "histories": [[(x[1].name, x[0].position, x[0].wavelength) for x in h]]}))
                    break
        else:
            if lsc is not None:
                w = compare(lsc, first, last, comps, ["lamp"], cells_of(cfg))
                if w and len(bad) < 4:
                    bad.append((w[0], f"{describe(cfg)}, photons from {p} along {d}: {w[1]}", {"device": describe(cfg), "position": p, "direction": d, "draws of each photon": done}))
    return n, n, bad


def describe(cfg):
    return ", ".join(f"{k} {v}" for k, v in cfg.items())


def job_sequences(a):
    """All sequences of steps from a prefix."""
    from mc import choice
    cfg, prefix, depth = a
    choice.install()
    st = starts()
    bad, n, states = [], 0, 0
    ops = ("simulate 1", "simulate 2", "simulate 5", "report", "cell left", "cell near", "invalid cell", "query")
    two = [("lamp", [(p, d, 500.0 + i) for i, (p, d) in enumerate(st[:14])]), ("sun", [(p, d, 540.0 + i) for i, (p, d) in enumerate(st[18:])])]
    for rest in itertools.product(ops, repeat=depth - len(prefix)):
        seq = tuple(prefix) + rest
        lsc = device(cfg, two)
        cells = cells_of(cfg)
        first, last = [], []
        states += 1
        # the twin's lights must not restart between simulations
        scene, comps = twin(cfg, two, cells)
        for i, op in enumerate(seq):
            n += 1
            if op.startswith("simulate"):
                k = int(op.split()[1])
                devs = {(7 * i + 3) % 19 + 4 * j: ALPHA[(i + j) % 4] for j in range(6)}
                seen = []
                choice.DRIVER.start(devs)
                quiet(lsc.simulate, k, progress=seen.append)
                if seen != list(range(1, k + 1)):
                    bad.append(("progress", f"{seq[:i + 1]}: progress {seen} for {k} photons", {"device": describe(cfg), "steps": seq}))
                choice.DRIVER.start(devs)
                for ray in scene.emit(k):
                    f, l = records(follow(scene, ray, "kT"))
                    first.append(f)
                    last.append(l)
            elif op.startswith("cell"):
                lsc.add_solar_cell([op.split()[1]])
                cells.add(op.split()[1])  # the twin's delegate reads this set
            elif op == "invalid cell":
                try:
                    lsc.add_solar_cell({"left", "top"})
                    bad.append(("cells", f"{seq[:i + 1]}: a solar cell on top is accepted", {"device": describe(cfg), "steps": seq}))
                except ValueError:
                    pass
            elif first:
                if op == "report":
                    quiet(lsc.report)
                else:
                    quiet(lsc.counts)
                    quiet(lsc.summary)
            if first and (i == len(seq) - 1 or op == "report"):
                w = compare(lsc, first, last, comps, ["lamp", "sun"], cells, i == len(seq) - 1 and "report" not in seq)
                if w:
                    if len(bad) < 4:
                        bad.append((f"steps:{w[0]}", f"{describe(cfg)}, after {seq[:i + 1]}: {w[1]}", {"device": describe(cfg), "steps": seq[:i + 1]}))
                    break
    return states, n, bad


def job_late(a):
    """Components, lights and films added after the first simulation."""
    from mc import choice
    what, = a
    choice.install()
    p, d = (0.1, -0.2, 0.15), (0.0, 0.0, -1.0)  # through the bottom face, unless something stops it
    cfg = dict(cells=[], mirror=None, components="spectrum")
    cfg2 = dict(cfg)
    lights = [("lamp", [(p, d, 700.0)])]
    lsc = device(cfg, lights)
    scene, comps = twin(cfg, lights)
    first, last = [], []

    def simulate(k):
        choice.DRIVER.start({})
        quiet(lsc.simulate, k)
        choice.DRIVER.start({})
        for ray in scene.emit(k):
            f, l = records(follow(scene, ray, "kT"))
            first.append(f)
            last.append(l)
    simulate(2)
    names = ["lamp"]
    if what == "light":
        extra = [("sun", [(starts()[6][0], starts()[6][1], 600.0)])]
        build_lights(lsc, extra)
        lights = lights + extra
        names.append("sun")
    elif what == "component":
        lsc.add_absorber("ink", 50.0)
    else:
        lsc.add_air_gap_mirror()
        cfg2["mirror"] = "specular"
    scene, comps = twin(cfg2, lights)
    if what == "component":
        from pvtrace import Absorber
        scene.root.children[0].geometry.material.components.append(Absorber(50.0, name="ink"))
        comps.append("ink")
    simulate(4)
    w = compare(lsc, first, last, comps, names, set())
    return 1, 6, [(f"late {what}", f"a {what} added after the first simulation: {w[1]}", {"late": what})] if w else []


JOBS = {"tree": job_tree, "sequences": job_sequences, "late": job_late}


def dispatch(j):
    return JOBS[j[0]](j[1])


def main(chk):
    ns = len(starts())
    cfgs = []
    sets = [[]] + [[{f}] for f in FACETS[:4]] + [[["left", "near"]], [("far",), {"right", "far"}], [set(FACETS[:4])]]
    if base.THOROUGH:
        sets = [[set(c)] for k in range(5) for c in itertools.combinations(FACETS[:4], k)]
    for i, (c, m) in enumerate(itertools.product(sets, (None, "back", "specular", "lambertian"))):
        kinds = ("poor dye", "haze", "absorber", "dye", "two dyes", "forward haze", "spectrum", "default")
        for k in kinds if base.THOROUGH else (kinds[i % 8],):
            cfgs.append(dict(cells=c, mirror=m, components=k, method=("kT", "redshift", "full")[i % 3] if k != "spectrum" else "kT", n=(None, (1.0, 1.9), (1.33, 1.33))[i % 3 if i % 2 else 0], range=bool(i % 2),
                             order=((0, 1, 2), (2, 1, 0), (1, 0, 2))[i % 3]))
    jobs = []
    for i, c in enumerate(cfgs):
        if base.THOROUGH:
            jobs += [("tree", (c, [s], 1, 30)) for s in range(ns)]
            if i % 8 == (i // 8) % 8:
                jobs += [("tree", (c, [s], 2, 12)) for s in range(ns)]
        else:
            sel = [s for s in range(ns) if (s + i) % 4 == 0 or (c["mirror"] in ("specular", "lambertian") and 10 <= s < 14 and (s + i) % 2)]
            jobs += [("tree", (c, sel[0::2], 1, 16)), ("tree", (c, sel[1::2], 1, 16))]
    ops = ("simulate 1", "simulate 2", "simulate 5", "report", "cell left", "cell near", "invalid cell", "query")
    for c in (dict(cells=[{"far"}], mirror="specular", components="two dyes"), dict(cells=[], mirror="back", components="default")):
        depth = 4 if base.THOROUGH else 3
        jobs += [("sequences", (c, pre, depth)) for pre in itertools.product(ops, repeat=depth - 2)]
    jobs += [("late", (w,)) for w in ("light", "component", "film")]
    if base.THOROUGH:
        jobs = [j for j in jobs if not (j[0] == "tree" and j[1][0]["components"] == "default" and j[1][2] > 1)]
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"job": j, "trace": r[1]})
            continue
        s, c, bad = r
        chk.add("states", s)
        chk.add("transitions", c)
        chk.add("traces_validated_against_impl", c)
        chk.add(j[0] + "_cases", s)
        for b in bad:
            chk.violation(*b)
    chk.assumptions += ["photons do not start on the slab's surface and do not meet its edges exactly", "the Lambertian air gap film is met on its top face only (documented limit)",
                        "the twin is traced by photon_tracer (decided by C01-C03, C18) under the same draws as the device"]
    chk.sample({"device": describe(cfgs[3])})
    chk.sample({"device": describe(cfgs[-1])})
