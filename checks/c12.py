"""Scene files: every combination of options of every construct, built by the
real parser and compared with an independent reading of the file."""
from mc import base, choice
choice.install()
import copy  # noqa
import itertools  # noqa
import math  # noqa
import os  # noqa
import shutil  # noqa
import tempfile  # noqa
import numpy as np  # noqa

US = (0.07, 0.31, 0.5, 0.83)
WORLD = {"sphere": {"radius": 50.0, "material": {"refractive-index": 1.0}}}

ABS = [(400.0, 0.5), (450.0, 2.0), (500.0, 4.0), (620.0, 1.0), (700.0, 0.0)]
EMS = [(500.0, 0.1), (550.0, 1.0), (560.0, 0.7), (650.0, 0.2)]


def write_files(d):
    os.makedirs(os.path.join(d, "sub"))
    for path, xy in (("abs.csv", ABS), ("sub/abs.csv", ABS), ("ems.csv", EMS), ("sub/ems.csv", EMS)):
        with open(os.path.join(d, path), "w") as f:
            f.write(",wavelength,value\n")
            for i, (x, y) in enumerate(xy):
                f.write(f"{i},{x!r},{y!r}\n")
    import trimesh
    m = trimesh.creation.box(extents=(1.0, 2.0, 3.0))
    m.export(os.path.join(d, "brick.stl"))
    m.export(os.path.join(d, "sub", "brick.stl"))


def modules():
    from pvtrace.data import lumogen_f_red_305, fluro_red
    return {"lumogen-f-red-305": lumogen_f_red_305, "fluro-red": fluro_red}


def spectra(d, kind, named="absorption"):
    """[(fragment, [(x, y)])]"""
    base_ = ABS if kind == "abs" else EMS
    out = [({"file": f"{kind}.csv"}, base_), ({"file": f"sub/{kind}.csv"}, base_),
           ({"file": os.path.join(d, f"{kind}.csv")}, base_)]
    mods = modules()
    for name, lo, hi, step in (("lumogen-f-red-305", 500, 700, 5), ("fluro-red", 400.0, 800.0, 0.5), ("fluro-red", 450, 655, 10),
                               ("lumogen-f-red-305", 400, 800, 0.1)):
        n = int(math.floor((hi - lo) / step + 1e-9)) + 1
        x = np.array([lo + step * i for i in range(n)])
        y = getattr(mods[name], named)(x)
        out.append(({"name": name, "range": {"min": lo, "max": hi, "spacing": step}}, list(zip(x.tolist(), np.asarray(y).tolist()))))
    return out


def phases():
    from pvtrace.material import utils as U
    iso = ("isotropic", U.isotropic)
    lam = ("lambertian", U.lambertian)
    return [({"isotropic": None},) + iso, ({"lambertian": None},) + lam,
            ({"cone": {"half-angle": 20}}, "cone20", U.Cone(math.radians(20))),
            ({"cone": {"half-angle": "35.5"}}, "cone35.5", U.Cone(math.radians(35.5))),
            ({"henyey-greenstein": {"g": 0.7}}, "hg.7", U.HenyeyGreenstein(0.7)),
            ({"henyey-greenstein": {"g": -0.3}}, "hg-.3", U.HenyeyGreenstein(-0.3)),
            ({"henyey-greenstein": {"g": 0}}, "hg0", U.HenyeyGreenstein(0.0))]


def with_u(u, fn):
    choice.DRIVER.default = u
    choice.DRIVER.start({})
    return fn()


# ---- components ------------------------------------------------------------------

class Comp:
    def __init__(self, kind, coef, spec, hist, qy=None, phase=None, espec=None):
        self.kind, self.coef, self.spec, self.hist, self.qy, self.phase, self.espec = kind, coef, spec, hist, qy, phase, espec

    def fragment(self):
        a = {}
        if self.coef is not None:
            a["coefficient"] = self.coef
        if self.spec is not None:
            a["spectrum"] = copy.deepcopy(self.spec[0])
        h = {} if self.hist is None else {"hist": self.hist}
        if self.kind == "absorber":
            return {"absorber": dict(a, **h)}
        e = {}
        if self.qy is not None:
            e["quantum-yield"] = self.qy
        if self.phase is not None:
            e["phase-function"] = copy.deepcopy(self.phase[0])
        if self.kind == "scatterer":
            return {"scatterer": dict(a, **h, **e)}
        e["spectrum"] = copy.deepcopy(self.espec[0])
        return {"luminophore": dict(h, absorption=a, emission=e)}

    def check(self, c, name):
        from pvtrace import Absorber, Luminophore, Scatterer
        from pvtrace.material.component import Reactor
        from pvtrace.material.distribution import Distribution
        from pvtrace.light.ray import Ray
        kinds = {"absorber": Absorber, "scatterer": Scatterer, "luminophore": Luminophore}
        if not isinstance(c, kinds[self.kind]) or isinstance(c, Reactor) or (
                self.kind == "scatterer" and isinstance(c, (Absorber, Luminophore))):
            return f"is a {type(c).__name__}"
        if c.name != name:
            return f"is named {c.name}"
        hist = bool(self.hist)
        if self.spec is None:
            for nm in (300.0, 555.0, 1000.0):
                if float(c.coefficient(nm)) != float(self.coef):
                    return f"coefficient {c.coefficient(nm)} at {nm}, file says {self.coef}"
        else:
            x, y = np.array(self.spec[1]).T
            if self.coef is not None:
                y = y / y.max() * self.coef
            pts = list(range(len(x))) if len(x) < 60 else list(range(0, len(x), 37)) + [len(x) - 1]
            if not hist:
                for i in pts:
                    if abs(float(c.coefficient(float(x[i]))) - y[i]) > 1e-9 * (1 + abs(y[i])):
                        return f"coefficient {c.coefficient(float(x[i]))} at {x[i]}, file says {y[i]}"
                    if i + 1 < len(x):
                        m = 0.5 * (x[i] + x[i + 1])
                        if abs(float(c.coefficient(float(m))) - 0.5 * (y[i] + y[i + 1])) > 1e-6 * (1 + abs(y[i])):
                            return f"coefficient {c.coefficient(float(m))} at {m}, interpolation gives {0.5 * (y[i] + y[i + 1])}"
            else:
                ref = Distribution(x, y, hist=True)
                for i in pts[:-1]:
                    m = 0.3 * x[i] + 0.7 * x[i + 1]
                    if abs(float(c.coefficient(float(m))) - float(ref(float(m)))) > 1e-9 * (1 + abs(y[i])):
                        return f"coefficient {c.coefficient(float(m))} at {m}, the histogram has {ref(float(m))}"
            # beyond the tabulated range: whatever a spectrum of those points does
            end = Distribution(x, y, hist=hist)

            def attempt(f, nm):
                try:
                    return float(f(nm))
                except Exception as e:
                    return type(e).__name__

            for nm in (float(x[0]) - 1.0, float(x[-1]) + 0.05, float(x[-1]) + 7.0):
                got, want = attempt(c.coefficient, nm), attempt(end, nm)
                if got != want:
                    return f"coefficient {got} at {nm}, a spectrum of the file's points gives {want}"
        ray = Ray((0.0, 0.0, 0.0), (0.0, 0.0, 1.0), 410.0)
        qy = 0.0 if self.kind == "absorber" else 1.0 if self.qy is None else float(self.qy)
        for u in (0.0, qy - 1e-9, qy + 1e-9, 1 - 1e-9):
            if 0 <= u < 1 and bool(with_u(u, lambda: c.is_radiative(ray))) != (u < qy):
                return f"quantum yield is not {qy}"
        if self.kind == "absorber":
            return None
        fn = phases()[0][2] if self.phase is None else self.phase[2]
        for u in US:
            r = with_u(u, lambda: c.emit(ray, method="full"))
            want = with_u(u, fn)
            if max(abs(a - b) for a, b in zip(r.direction, want)) > 1e-9:
                return f"emits along {tuple(r.direction)}, its phase function gives {tuple(want)}"
            if r.source != name:
                return f"emits photons of source {r.source}"
            wl = 410.0
            if self.kind == "luminophore":
                x, y = np.array(self.espec[1]).T
                wl = float(Distribution(x, y, hist=hist).sample(u))
            if abs(r.wavelength - wl) > 1e-6:
                return f"emits {r.wavelength} nm for draw {u}, its spectrum gives {wl}"
        return None

    def describe(self):
        return {"fragment": self.fragment()}


def component_options(d):
    sp = [None] + spectra(d, "abs")
    es = spectra(d, "ems", "emission")
    ph = phases()
    for coef in (None, 0, 3, 2.5):
        for s in sp:
            if coef is None and s is None:
                continue
            for hist in (None, False, True):
                yield Comp("absorber", coef, s, hist)
                for qy in (None, 0, 0.25, 1.0):
                    for p in [None] + ph:
                        if not base.THOROUGH and s is not None and p is not None and (ph.index(p) + sp.index(s)) % 3:
                            continue
                        yield Comp("scatterer", coef, s, hist, qy, p)
    for coef in (None, 0, 3, 2.5):
        for i, s in enumerate(sp):
            if coef is None and s is None:
                continue
            for j, e in enumerate(es):
                for hist in (None, False, True):
                    for k, qy in enumerate((None, 0, 0.98)):
                        for m, p in enumerate([None] + ph + [("isotropic", "isotropic", ph[0][2]), ("lambertian", "lambertian", ph[1][2])]):
                            if not base.THOROUGH and (i + 2 * j + 3 * k + m) % 11:
                                continue
                            yield Comp("luminophore", coef, s, hist, qy, p, e)


# ---- nodes -------------------------------------------------------------------------

def geometry_options(d):
    for size in ([1, 2, 3], [0.5, 4.0, 1.25], [2, 2, 2.0]):
        yield "box", {"size": size}, ("box", tuple(map(float, size)))
    for length, radius in ((1, 2), (3.5, 0.25)):
        yield "cylinder", {"length": length, "radius": radius}, ("cylinder", float(length), float(radius))
    for radius in (1, 0.35):
        yield "sphere", {"radius": radius}, ("sphere", float(radius))
    for f in ("brick.stl", "sub/brick.stl", os.path.join(d, "brick.stl")):
        yield "mesh", {"file": f}, ("mesh", (1.0, 2.0, 3.0))


def material_options():
    for n in (1, 1.0, 1.5, 2):
        for c in (None, [], ["one"], ["two"], ["one", "two"], ["two", "one"]):
            m = {"refractive-index": n}
            if c is not None:
                m["components"] = c
            yield m, (float(n), tuple(c or ()))


DIRECTIONS = [None, [0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [0.6, 0.0, 0.8], [0, 0, 2], [0, 0, -3], [1, 1, 1], [-2, 1, -5],
              [0.0, 0.001, -1.0], [0.0, 0.004, -1.0], [1e-7, 0.0, -1.0], [0.1, 0.0, 0.0]]
LOCATIONS = [None, [0, 0, 0], [1, 2, 3], [0.5, -1.25, 3.0], [0, 0, 7]]


def check_geometry(g, want):
    """Measured by rays and containment, not by attributes."""
    from pvtrace import Box, Sphere, Cylinder, Mesh
    kinds = {"box": Box, "cylinder": Cylinder, "sphere": Sphere, "mesh": Mesh}
    if not isinstance(g, kinds[want[0]]):
        return f"is a {type(g).__name__}, file says {want[0]}"
    if want[0] in ("box", "mesh"):
        ext = want[1]
    elif want[0] == "cylinder":
        ext = (2 * want[2], 2 * want[2], want[1])
    else:
        ext = (2 * want[1],) * 3
    for ax in range(3):
        for sgn in (1.0, -1.0):
            o, v = [0.0] * 3, [0.0] * 3
            o[ax], v[ax] = -sgn * 20.0, sgn
            # off the diagonals of triangulated faces
            o[(ax + 1) % 3] += 0.013 * ext[(ax + 1) % 3]
            o[(ax + 2) % 3] += 0.031 * ext[(ax + 2) % 3]
            pts = sorted(p[ax] for p in g.intersections(tuple(o), tuple(v)))
            if len(pts) < 2:
                return f"has {len(pts)} crossings along axis {ax}"
            half = ext[ax] / 2
            r = 0.013 * ext[(ax + 1) % 3], 0.031 * ext[(ax + 2) % 3]
            if want[0] == "sphere":
                half = math.sqrt(half ** 2 - r[0] ** 2 - r[1] ** 2)
            elif want[0] == "cylinder" and ax < 2:
                # the offset which is not along z
                off = r[0] if (ax + 1) % 3 != 2 else r[1]
                half = math.sqrt(half ** 2 - off ** 2)
            if abs(pts[0] + half) > 1e-6 or abs(pts[-1] - half) > 1e-6:
                return f"spans {pts[0]}..{pts[-1]} along axis {ax}, file says +-{half}"
    return None


def check_pose(node, loc, direc):
    loc = [0.0, 0.0, 0.0] if loc is None else loc
    if max(abs(float(a) - b) for a, b in zip(node.location, loc)) > 1e-12:
        return f"is at {list(node.location)}, file says {loc}"
    m = np.array(node.transformation_to(node.parent)) if node.parent is not None else np.array(node.pose)
    if np.abs(m[:3, 3] - np.array(loc, float)).max() > 1e-9:
        return f"is placed at {m[:3, 3]}, file says {loc}"
    R = m[:3, :3]
    if np.abs(R @ R.T - np.eye(3)).max() > 1e-9 or np.linalg.det(R) < 0:
        return "placement is not rigid"
    if direc is None:
        if np.abs(R - np.eye(3)).max() > 1e-12:
            return "is rotated, file gives no direction"
    else:
        want = np.array(direc, float) / np.linalg.norm(direc)
        if np.abs(R[:, 2] - want).max() > 1e-9:
            return f"faces {R[:, 2]}, file says {want}"
    return None


def check_material(m, want, comps):
    if float(m.refractive_index) != want[0]:
        return f"refractive index {m.refractive_index}, file says {want[0]}"
    if [c.name for c in m.components] != list(want[1]):
        return f"components {[c.name for c in m.components]}, file says {list(want[1])}"
    return None


# ---- lights ---------------------------------------------------------------------------

def position_options():
    from pvtrace.light.light import CubeMask, CircularMask, RectangularMask
    return [(None, lambda: (0.0, 0.0, 0.0)), ({"rect": [1, 2]}, RectangularMask(1, 2)), ({"rect": [0.5, 0.25]}, RectangularMask(0.5, 0.25)),
            ({"cube": [1, 2, 3]}, CubeMask(1, 2, 3)), ({"circle": 2}, CircularMask(2.0)), ({"circle": 0.5}, CircularMask(0.5)),
            ([1.0, 2.0, 3.0], lambda: (1.0, 2.0, 3.0))]


def direction_options():
    return [(None, lambda: (0.0, 0.0, 1.0))] + [(p[0], p[2]) for p in phases()] + [([0.0, 1.0, 0.0], lambda: (0.0, 1.0, 0.0))]


def wavelength_options(d):
    from pvtrace.material.distribution import Distribution
    out = [(None, None), ({"nanometers": 600}, lambda: 600.0), ({"nanometers": 455.5}, lambda: 455.5), (700, lambda: 700.0)]
    for frag, xy in spectra(d, "abs")[:5]:
        x, y = np.array(xy).T
        dist = Distribution(x, y)
        out.append(({"spectrum": frag}, lambda dist=dist: dist.sample(choice.DRIVER.draw())))
    return out


def light_options(d):
    for wl in (None, 500, 650.5):
        for pos, pf in position_options():
            for di, df in direction_options():
                for w, wf in wavelength_options(d):
                    f = {}
                    if wl is not None:
                        f["wavelength"] = wl
                    mask = {}
                    for k, v in (("position", pos), ("direction", di), ("wavelength", w)):
                        if v is not None:
                            mask[k] = copy.deepcopy(v)
                    if mask:
                        f["mask"] = mask
                    yield f, (pf, df, wf or (lambda wl=wl: 555.0 if wl is None else float(wl)))


def check_light(light, want, name):
    if light.name != name:
        return f"light is named {light.name}"
    for u in US:
        rays = with_u(u, lambda: list(light.emit(1)))
        if len(rays) != 1:
            return f"emits {len(rays)} photons"
        r = rays[0]
        p, v, w = with_u(u, want[0]), with_u(u, want[1]), with_u(u, want[2])
        if max(abs(a - b) for a, b in zip(r.position, p)) > 1e-12:
            return f"emits from {tuple(r.position)}, the mask gives {tuple(p)}"
        if max(abs(a - b) for a, b in zip(r.direction, v)) > 1e-12:
            return f"emits along {tuple(r.direction)}, the mask gives {tuple(v)}"
        if abs(r.wavelength - w) > 1e-9:
            return f"emits {r.wavelength} nm, file gives {w}"
        if r.source != name:
            return f"photons have source {r.source}"
    return None


# ---- recorders -----------------------------------------------------------------------

def recorder_options():
    hs = [None, {}, {"wavelength": [300, 900, 10]}, {"angle": [0, 1.57, 5], "duration": [0, 1e-8, 3]},
          {"position": ["x", "y", [-1, 1, 4], [-2.5, 2.5, 5]]}, {"pathlength": [0.0, 10.0, 2], "position": ["z", "wavelength", [0, 1, 3], [400, 800, 2]]}]
    for event in ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"):
        for facet in (None, [0, 0, 1], [-1.0, 0.0, 0.0]):
            for atol in (None, 0.01, 1):
                for h in hs:
                    f = {"node": "slab", "event": event}
                    if facet is not None:
                        f["facet"] = facet
                    if atol is not None:
                        f["atol"] = atol
                    if h is not None:
                        f["histograms"] = copy.deepcopy(h)
                    yield f


def describe_recorder(r):
    hs = []
    for h in r.histograms:
        if hasattr(h, "a"):
            hs.append(("position", (h.a.prop, h.a.start, h.a.stop, h.a.bins), (h.b.prop, h.b.start, h.b.stop, h.b.bins)))
        else:
            hs.append((h.prop, h.start, h.stop, h.bins))
    return (r.event, None if r.facet is None else tuple(r.facet), r.atol, sorted(hs, key=repr))


def expect_recorder(f):
    hs = []
    for k, v in (f.get("histograms") or {}).items():
        if k == "position":
            hs.append(("position", (v[0],) + tuple(map(float, v[2][:2])) + (v[2][2],), (v[1],) + tuple(map(float, v[3][:2])) + (v[3][2],)))
        else:
            hs.append((k, float(v[0]), float(v[1]), v[2]))
    return (f["event"], None if f.get("facet") is None else tuple(map(float, f["facet"])), float(f.get("atol", 1e-6)), sorted(hs, key=repr))


# ---- building ---------------------------------------------------------------------------

_built = [0]


def build(d, spec, style=0):
    """Parse the file; also the same specification in memory."""
    import yaml
    from pvtrace.cli import parse as P
    _built[0] += 1
    path = os.path.join(d, f"s{os.getpid()}.yml")
    with open(path, "w") as f:
        yaml.safe_dump(spec, f, default_flow_style=bool(style), sort_keys=False)
    return P.parse(path)


def nodes_of(scene):
    return {n.name: n for n in (scene.root,) + tuple(scene.root.descendants)}


def run_components(d, chunk):
    bad = []
    spec = {"version": "1.0", "nodes": {"world": WORLD, "slab": {"box": {"size": [1, 1, 1], "material": {
        "refractive-index": 1.5, "components": [f"c{i}" for i in range(len(chunk))]}}}},
        "components": {f"c{i}": c.fragment() for i, c in enumerate(chunk)}}
    try:
        scene = build(d, spec, len(chunk) % 2)
    except Exception as e:  # noqa
        if len(chunk) > 1:
            h = len(chunk) // 2
            return run_components(d, chunk[:h]) + run_components(d, chunk[h:])
        return [(f"{chunk[0].kind}:refused", f"a component accepted by the schema fails: {type(e).__name__}: {e}", chunk[0].describe())]
    got = {c.name: c for c in nodes_of(scene)["slab"].geometry.material.components}
    for i, c in enumerate(chunk):
        if f"c{i}" not in got:
            bad.append((f"{c.kind}:missing", "component is missing", c.describe()))
            continue
        try:
            m = c.check(got[f"c{i}"], f"c{i}")
        except Exception as e:  # noqa
            m = f"{type(e).__name__}: {e}"
        if m:
            bad.append((f"{c.kind}:{m[:20]}", f"{c.kind} {m}", c.describe()))
    return bad


COMPS = {"one": {"absorber": {"coefficient": 1}}, "two": {"scatterer": {"coefficient": 2.0, "phase-function": {"lambertian": None}}}}


def run_nodes(d, chunk):
    """chunk: [(geometry option, material option, location, direction)]"""
    spec = {"version": "1.0", "nodes": {"world": WORLD}, "components": COMPS}
    for i, ((kind, frag, _), (mat, _), loc, direc) in enumerate(chunk):
        n = {kind: dict(copy.deepcopy(frag), material=copy.deepcopy(mat))}
        if loc is not None:
            n["location"] = loc
        if direc is not None:
            n["direction"] = direc
        if i % 3:
            n["parent"] = [None, "world", None][i % 3]
        spec["nodes"][f"n{i}"] = n
    try:
        scene = build(d, spec)
    except Exception as e:  # noqa
        if len(chunk) > 1:
            h = len(chunk) // 2
            return run_nodes(d, chunk[:h]) + run_nodes(d, chunk[h:])
        return [("node:refused", f"a node accepted by the schema fails: {type(e).__name__}: {e}", spec)]
    nodes = nodes_of(scene)
    bad = []
    if set(nodes) != set(spec["nodes"]):
        return [("node:set", f"nodes {sorted(set(nodes) ^ set(spec['nodes']))} differ from the file", spec)]
    for i, ((kind, frag, gw), (mat, mw), loc, direc) in enumerate(chunk):
        n = nodes[f"n{i}"]
        try:
            m = (None if n.parent is nodes["world"] else f"parent is {n.parent}") or check_pose(n, loc, direc) or \
                check_geometry(n.geometry, gw) or check_material(n.geometry.material, mw, COMPS) or \
                (f"has recorders {n.recorders}" if n.recorders else None) or ("has a light" if n.light is not None else None)
        except Exception as e:  # noqa
            m = f"{type(e).__name__}: {e}"
        if m:
            bad.append((f"node:{m[:20]}", f"{kind} node {m}", spec["nodes"][f"n{i}"]))
    return bad


def run_lights(d, chunk):
    spec = {"version": "1.0", "nodes": {"world": WORLD}}
    for i, (f, w) in enumerate(chunk):
        spec["nodes"][f"lamp{i}"] = {"light": f}
    try:
        scene = build(d, spec)
    except Exception as e:  # noqa
        if len(chunk) > 1:
            h = len(chunk) // 2
            return run_lights(d, chunk[:h]) + run_lights(d, chunk[h:])
        f = chunk[0][0]
        m = f.get("mask", {})
        key = "light:refused"
        if isinstance(m.get("position"), list):
            key = "light:point position mask"
        elif isinstance(m.get("direction"), list):
            key = "light:vector direction mask"
        return [(key, f"a light accepted by the schema fails: {type(e).__name__}: {e}", f)]
    nodes, bad = nodes_of(scene), []
    for i, (f, w) in enumerate(chunk):
        n = nodes.get(f"lamp{i}")
        try:
            m = "is missing" if n is None or n.light is None else check_light(n.light, w, f"lamp{i}") or \
                ("has a geometry" if n.geometry is not None else None)
        except Exception as e:  # noqa
            m = f"{type(e).__name__}: {e}"
        if m:
            bad.append((f"light:{m[:16]}", f"light {m}", f))
    return bad


def run_recorders(d, chunk):
    spec = {"version": "1.0", "nodes": {"world": WORLD, "slab": {"box": {"size": [1, 1, 1], "material": {"refractive-index": 1.5}}}},
            "recorders": {f"r{i}": f for i, f in enumerate(chunk)}}
    scene = build(d, spec)
    nodes, bad = nodes_of(scene), []
    got = {r.name: r for r in nodes["slab"].recorders}
    if len(got) != len(nodes["slab"].recorders) or set(got) != set(spec["recorders"]) or nodes["world"].recorders:
        return [("recorder:set", f"recorders {sorted(set(got) ^ set(spec['recorders']))} differ", chunk)]
    for i, f in enumerate(chunk):
        a, b = describe_recorder(got[f"r{i}"]), expect_recorder(f)
        if a != b:
            bad.append(("recorder", f"recorder {a}, file says {b}", f))
    return bad


def run_auto(d, _):
    """`record: true`, with and without explicit recorders of the same name."""
    bad, n = [], 0
    for kind, frag, gw in geometry_options(d):
        for flag in (None, False, True):
            for explicit in (None, "lost", "same"):
                node = {kind: dict(copy.deepcopy(frag), material={"refractive-index": 1.5})}
                if flag is not None:
                    node["record"] = flag
                spec = {"version": "1.0", "nodes": {"world": WORLD, "other": {"sphere": {"radius": 1, "material": {"refractive-index": 1}}, "location": [9, 0, 0]}, "it": node}}
                if explicit:
                    name = "it-lost" if explicit == "lost" else ("it-top" if kind == "box" else "it-escaping")
                    spec["recorders"] = {name: {"node": "other", "event": "entering", "histograms": {"pathlength": [0, 1, 7]}}}
                n += 1
                nodes = nodes_of(build(d, spec))
                got = {r.name: describe_recorder(r) for r in nodes["it"].recorders}
                oth = {r.name: describe_recorder(r) for r in nodes["other"].recorders}
                wantn = set()
                if flag:
                    wantn = {"it-lost"} | ({f"it-{f}" for f in ("top", "bottom", "east", "west", "north", "south")} if kind == "box" else {"it-escaping"})
                where = {"node": node, "recorders": spec.get("recorders")}
                if explicit:
                    wantn -= {name}
                    if oth != {name: expect_recorder(spec["recorders"][name])}:
                        bad.append(("auto:explicit", f"explicit recorder {name} became {oth}", where))
                elif oth:
                    bad.append(("auto:other", f"{oth} on a node without `record`", where))
                if set(got) != wantn:
                    bad.append(("auto:set", f"recorders {sorted(got)}, documented are {sorted(wantn)}", where))
                    continue
                for nm, (ev, facet, atol, hs) in got.items():
                    if (ev == "lost") != (nm == "it-lost") or ev not in ("lost", "escaping"):
                        bad.append(("auto:event", f"{nm} records {ev}", where))
                    if kind == "box" and nm != "it-lost":
                        axis, sign = {"top": (2, 1), "bottom": (2, -1), "east": (0, 1), "west": (0, -1), "north": (1, 1), "south": (1, -1)}[nm[3:]]
                        want = [0.0] * 3
                        want[axis] = float(sign)
                        if facet != tuple(want):
                            bad.append(("auto:facet", f"{nm} has facet {facet}", where))
                        maps = [h for h in hs if h[0] == "position"]
                        other = [i for i in range(3) if i != axis]
                        ok = len(maps) == 1 and sorted(m[:3] for m in maps[0][1:]) == sorted(
                            ("xyz"[i], -gw[1][i] / 2, gw[1][i] / 2) for i in other)
                        if not ok:
                            bad.append(("auto:heatmap", f"{nm} has maps {maps}", where))
                    elif facet is not None:
                        bad.append(("auto:facet", f"{nm} has facet {facet}", where))
    return n, bad


def run_trees(d, chunk):
    """Parents and declaration orders; cycles must be refused."""
    bad = []
    places = {"a": ([1, 0, 0], [0, 1, 0]), "b": ([0, 2.5, 0], [1, 1, 1]), "c": ([0, 0, 3], None)}
    for parents, order in chunk:
        spec = {"version": "1.0", "nodes": {}}
        for k in order:
            if k == "world":
                spec["nodes"][k] = WORLD
                continue
            n = {"sphere": {"radius": 0.1, "material": {"refractive-index": 1}}} if k != "c" else {"light": {}}
            p = parents["abc".index(k)]
            if p != "-":
                n["parent"] = None if p == "~" else p
            n["location"] = places[k][0]
            if places[k][1]:
                n["direction"] = places[k][1]
            spec["nodes"][k] = n
        up = {k: ("world" if p in "-~" else p) for k, p in zip("abc", parents)}

        def cyclic(k):
            seen = set()
            while k != "world":
                if k in seen or k not in up:
                    return True
                seen.add(k)
                k = up[k]
            return False
        wrong = any(cyclic(k) for k in "abc")
        try:
            scene = build(d, spec, 1)
        except Exception as e:  # noqa
            if not wrong:
                bad.append(("tree:refused", f"a tree fails: {type(e).__name__}: {e}", spec))
            continue
        if wrong:
            bad.append(("tree:accepted", "a file with circular or unknown parents is accepted", spec))
            continue
        nodes = nodes_of(scene)
        if set(nodes) != {"world", "a", "b", "c"} or scene.root is not nodes["world"] or nodes["world"].parent is not None:
            bad.append(("tree:set", f"nodes {sorted(nodes)}, root {scene.root}", spec))
            continue
        for k in "abc":
            if nodes[k].parent is not nodes[up[k]]:
                bad.append(("tree:parent", f"parent of {k} is {nodes[k].parent}, file says {up[k]}", spec))
            m = check_pose(nodes[k], *places[k])
            if m:
                bad.append(("tree:pose", f"node {k} {m}", spec))
    return bad


def invalid_specs():
    ok = {"version": "1.0", "nodes": {"world": WORLD, "slab": {"location": [0, 0, 1], "box": {"size": [1, 1, 1], "material": {"refractive-index": 1.5, "components": ["ink"]}}},
                                      "lamp": {"light": {"mask": {"direction": {"cone": {"half-angle": 10}}}}}},
          "components": {"ink": {"absorber": {"coefficient": 1.0}}}, "recorders": {"top": {"node": "slab", "event": "escaping"}}}
    out = [("valid", ok, True)]

    def mut(label, fn):
        s = copy.deepcopy(ok)
        fn(s)
        out.append((label, s, False))
    mut("unknown component", lambda s: s["nodes"]["slab"]["box"]["material"]["components"].append("missing"))
    mut("component section missing", lambda s: s.pop("components"))
    mut("unknown parent", lambda s: s["nodes"]["slab"].update(parent="nobody"))
    mut("own parent", lambda s: s["nodes"]["slab"].update(parent="slab"))
    mut("no world", lambda s: s["nodes"].pop("world"))
    mut("no nodes", lambda s: s.pop("nodes"))
    mut("no version", lambda s: s.pop("version"))
    mut("version 2", lambda s: s.update(version="2.0"))
    mut("numeric version", lambda s: s.update(version=1.0))
    mut("index below one", lambda s: s["nodes"]["slab"]["box"]["material"].update({"refractive-index": 0.5}))
    mut("no index", lambda s: s["nodes"]["slab"]["box"]["material"].pop("refractive-index"))
    mut("two shapes", lambda s: s["nodes"]["slab"].update(sphere={"radius": 1, "material": {"refractive-index": 1}}))
    mut("no shape", lambda s: s["nodes"]["slab"].pop("box"))
    mut("unknown node key", lambda s: s["nodes"]["slab"].update(colour="red"))
    mut("negative radius", lambda s: s["nodes"].update(ball={"sphere": {"radius": -1, "material": {"refractive-index": 1}}}))
    mut("negative coefficient", lambda s: s["components"]["ink"]["absorber"].update(coefficient=-1.0))
    mut("text coefficient", lambda s: s["components"]["ink"]["absorber"].update(coefficient="one"))
    mut("empty absorber", lambda s: s["components"]["ink"].update(absorber={}))
    mut("two component kinds", lambda s: s["components"]["ink"].update(scatterer={"coefficient": 1}))
    mut("unknown component kind", lambda s: s["components"].update(x={"dye": {"coefficient": 1}}))
    mut("yield above one", lambda s: s["components"].update(x={"scatterer": {"coefficient": 1, "quantum-yield": 1.5}}))
    mut("missing spectrum file", lambda s: s["components"].update(x={"absorber": {"spectrum": {"file": "nowhere.csv"}}}))
    mut("unknown spectrum", lambda s: s["components"].update(x={"absorber": {"spectrum": {"name": "nowhere", "range": {"min": 1, "max": 2, "spacing": 1}}}}))
    mut("spectrum without range", lambda s: s["components"].update(x={"absorber": {"spectrum": {"name": "fluro-red"}}}))
    mut("luminophore without emission", lambda s: s["components"].update(x={"luminophore": {"absorption": {"coefficient": 1}}}))
    mut("luminophore without absorption", lambda s: s["components"].update(x={"luminophore": {"emission": {"spectrum": {"file": "ems.csv"}}}}))
    mut("two position masks", lambda s: s["nodes"]["lamp"]["light"]["mask"].update(position={"rect": [1, 1], "circle": 1}))
    mut("two direction masks", lambda s: s["nodes"]["lamp"]["light"]["mask"].update(direction={"isotropic": None, "lambertian": None}))
    mut("empty direction mask", lambda s: s["nodes"]["lamp"]["light"]["mask"].update(direction={"unknown": 1}))
    mut("asymmetry above one", lambda s: s["nodes"]["lamp"]["light"]["mask"].update(direction={"henyey-greenstein": {"g": 1.5}}))
    mut("recorder of unknown node", lambda s: s["recorders"]["top"].update(node="nobody"))
    mut("recorder without node", lambda s: s["recorders"]["top"].pop("node"))
    mut("recorder without event", lambda s: s["recorders"]["top"].pop("event"))
    mut("recorder of unknown event", lambda s: s["recorders"]["top"].update(event="vanishing"))
    mut("recorder with short facet", lambda s: s["recorders"]["top"].update(facet=[0, 1]))
    mut("histogram of unknown property", lambda s: s["recorders"]["top"].update(histograms={"colour": [0, 1, 2]}))
    mut("histogram without bins", lambda s: s["recorders"]["top"].update(histograms={"wavelength": [0, 1]}))
    mut("histogram with inverted range", lambda s: s["recorders"]["top"].update(histograms={"wavelength": [1, 0, 2]}))
    mut("histogram with no bins", lambda s: s["recorders"]["top"].update(histograms={"wavelength": [0, 1, 0]}))
    mut("missing mesh", lambda s: s["nodes"].update(m={"mesh": {"file": "nowhere.stl", "material": {"refractive-index": 1}}}))
    mut("bad node name", lambda s: s["nodes"].update({"a b": s["nodes"]["slab"]}))
    mut("text location", lambda s: s["nodes"]["slab"].update(location="here"))
    mut("short location", lambda s: s["nodes"]["slab"].update(location=[1, 2]))
    mut("zero direction", lambda s: s["nodes"]["slab"].update(direction=[0, 0, 0]))
    mut("list of nodes", lambda s: s.update(nodes=[1]))
    mut("spectrum with file and name", lambda s: s["components"].update(x={"absorber": {"spectrum": {"file": "abs.csv", "name": "fluro-red", "range": {"min": 1, "max": 2, "spacing": 1}}}}))
    return out


def run_invalid(d, _):
    """Invalid files are refused; afterwards a valid one still gives its scene,
    and building does not change the specification."""
    from pvtrace.cli import parse as P
    bad, n = [], 0
    specs = invalid_specs()
    for label, spec, valid in specs:
        n += 1
        try:
            build(d, spec)
            if not valid:
                bad.append((f"invalid:{label}", f"an invalid file ({label}) is accepted", spec))
        except Exception as e:  # noqa
            if valid:
                bad.append(("invalid:valid", f"the valid file fails after invalid ones: {e!r}", spec))
        keep = copy.deepcopy(specs[0][1])
        if not hasattr(P, "parse_v_1_0"):
            continue
        one = P.parse_v_1_0(keep, d)
        if keep != specs[0][1]:
            bad.append(("spec changed", "building a scene changes the specification", keep))
            keep = copy.deepcopy(specs[0][1])
        if set(nodes_of(one)) != {"world", "slab", "lamp"} or [r.name for r in nodes_of(one)["slab"].recorders] != ["top"]:
            bad.append(("spec again", f"the same specification gives {nodes_of(one)}", keep))
    return n, bad


def jobs(d):
    out = []

    def batch(kind, items, size):
        items = list(items)
        for i in range(0, len(items), size):
            out.append((kind, items[i:i + size]))
    comps = list(component_options(d))
    batch("components", comps, 40)
    # the same options again, neighbours in one file having as little in common as possible
    step = (len(comps) + 39) // 40
    batch("components", [c for k in range(step) for c in comps[k::step]], 40)
    # several components of one file given by the same spectrum
    sp, es, ph = spectra(d, "abs"), spectra(d, "ems", "emission"), phases()
    for s in (sp[0], sp[3], sp[4]):
        for e in (es[0], es[3], es[4]):
            opts = [Comp(k, c, s, None, None, None, e if k == "luminophore" else None)
                    for k in ("absorber", "scatterer", "luminophore") for c in (None, 2.0, 5)]
            for a, b in itertools.product(opts, repeat=2):
                out.append(("components", [a, b]))
    geos, mats = list(geometry_options(d)), list(material_options())
    full = [(g, m, l, v) for g in geos for m in mats[::5] for l in LOCATIONS[:3] for v in DIRECTIONS[:6]]
    full += [(geos[i % len(geos)], m, l, v) for i, m in enumerate(mats) for l in LOCATIONS for v in DIRECTIONS]
    if base.THOROUGH:
        full = [(g, m, l, v) for g in geos for m in mats for l in LOCATIONS for v in DIRECTIONS]
    batch("nodes", full, 40)
    batch("lights", light_options(d), 60)
    batch("recorders", recorder_options(), 63)
    trees = [(p, o) for p in itertools.product(["-", "~", "world", "a", "b", "c"], repeat=3)
             for o in itertools.permutations(["world", "a", "b", "c"])]
    if not base.THOROUGH:
        trees = [t for i, t in enumerate(trees) if i % 24 in (0, 7, 17, 23)]
    batch("trees", trees, 40)
    out += [("auto", None), ("invalid", None)]
    return out


RUN = {"components": run_components, "nodes": run_nodes, "lights": run_lights, "recorders": run_recorders, "trees": run_trees}
_JOBS = []
_DIR = []


def run(i):
    import contextlib
    import io
    kind, chunk = _JOBS[i]
    _built[0] = 0
    with contextlib.redirect_stdout(io.StringIO()):
        if chunk is None:
            n, bad = {"auto": run_auto, "invalid": run_invalid}[kind](_DIR[0], None)
        else:
            n, bad = len(chunk), RUN[kind](_DIR[0], chunk)
    return kind, n, _built[0], bad[:5]


def main(chk):
    chk.assumptions += ["constructs are combined within themselves (all options of a component, node, light, recorder) and 40 to a file; parents and orders for three nodes",
                        "phase functions, masks and distributions of the library are the reference for those the file names (their laws: C15-C17)"]
    d = tempfile.mkdtemp(prefix="c12-")
    try:
        write_files(d)
        _DIR.append(d)
        _JOBS.extend(jobs(d))
        res = base.pmap(run, range(len(_JOBS)))
        tot = {}
        for i, r in enumerate(res):
            if base.is_exc(r):
                chk.violation(f"{_JOBS[i][0]}:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
                continue
            kind, n, built, bad = r
            tot[kind] = tot.get(kind, 0) + n
            chk.add("states", n)
            chk.add("transitions", built)
            chk.add("traces_validated_against_impl", built)
            for k, w, rep in bad:
                chk.violation(k, w, rep)
        for k, n in tot.items():
            chk.sample({"construct": k, "combinations": n}, 10)
    finally:
        shutil.rmtree(d, ignore_errors=True)
