"""C14: shapes against exact roots on a lattice of photons and points: the Python shapes, the Python tracer and the engine.

Every combination of a shape, a lattice position in and around it and a lattice direction is a photon; further
families aim at the places where the arithmetic is delicate: short chords, points next to edges and rims, seams of
triangulated faces. The reference solves the surface equations per shape (planes, quadratics) in extended precision;
a photon within a relative margin of touching an edge or a tangent is not decided. The engine is driven through its
public interface: a shape of index 1 in a world of index 1, so its history lists the crossings."""
import itertools
import math

import numpy as np

from mc import base

LD = np.longdouble


def unit(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


DIRS = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] + \
       [(1, 2, 3), (-3, 1, .5), (.1, -1, .02), (2, -5, -1), (1e-3, 2e-3, 1), (1, 3e-4, -1e-4), (-1, 1e-7, 0), (0, 1e-9, -1),
        (0, 1, 2), (-2, 0, 1), (1, 2, 0), (0.3, -0.7, -0.9)]
MORE = [v for v in itertools.product((-2, -1, 0, 1, 3), repeat=3) if any(v)]


def shapes():
    out = [("box", (1.0, 2.0, 3.0)), ("box", (2, 2, 2)), ("box", (10.0, 10.0, 0.01)), ("box", (100.0, 5.0, 1.0)), ("box", (1e-4, 2e-4, 1e-4)),
           ("sphere", 1.0), ("sphere", 1e-5), ("sphere", 30), ("cylinder", 3.0, 0.7), ("cylinder", 100.0, 0.5), ("cylinder", 0.01, 5),
           ("cylinder", 2e-4, 1e-4)]
    if base.THOROUGH:
        out += [("box", (0.3, 70.0, 5.0)), ("sphere", 0.37), ("cylinder", 1, 1), ("cylinder", 20.0, 13.0), ("box", (1e-2, 1e-2, 50.0))]
    return out


def make(shape, **kw):
    from pvtrace import Box, Sphere, Cylinder
    return {"box": Box, "sphere": Sphere, "cylinder": Cylinder}[shape[0]](*shape[1:], **kw)


def extent(shape):
    if shape[0] == "box":
        return np.array(shape[1], float)
    if shape[0] == "sphere":
        return np.array([2.0 * shape[1]] * 3)
    return np.array([2.0 * shape[2], 2.0 * shape[2], shape[1]], float)


def roots(shape, o, d):
    """Crossings (t, outward normal function) of the whole line and the smallest margin to a degenerate case."""
    o = np.array(o, LD)
    d = np.array(d, LD)
    m = []
    lo, hi = LD(-np.inf), LD(np.inf)

    def slab(a, h):
        nonlocal lo, hi
        if abs(d[a]) < 1e-300:
            m.append(abs(abs(o[a]) - h))
            return abs(o[a]) < h
        t1, t2 = sorted(((-h - o[a]) / d[a], (h - o[a]) / d[a]))
        # the edges: two boundaries met at the same place
        for t in (lo, hi):
            for u in (t1, t2):
                if np.isfinite(t):
                    m.append(abs(t - u))
        lo, hi = max(lo, t1), min(hi, t2)
        return True

    def quad(k, r):
        nonlocal lo, hi
        a = sum(d[i] ** 2 for i in range(k))
        if a < 1e-300:
            q = np.sqrt(sum(o[i] ** 2 for i in range(k)))
            m.append(abs(q - r))
            return q < r
        b = sum(d[i] * o[i] for i in range(k))
        # distance of the line from the axis
        off2 = sum((o[i] - b / a * d[i]) ** 2 for i in range(k))
        m.append(abs(np.sqrt(off2) - r))
        if off2 >= r * r:
            return False
        h = np.sqrt((r * r - off2) / a)
        lo, hi = -b / a - h, -b / a + h
        return True

    ok = True
    if shape[0] == "sphere":
        ok = quad(3, LD(shape[1]))
    elif shape[0] == "cylinder":
        ok = quad(2, LD(shape[2]))
        ok = ok and slab(2, LD(shape[1]) / 2)
    else:
        for a in range(3):
            ok = slab(a, LD(shape[1][a]) / 2) and ok
    if not ok or hi <= lo:
        return [], float(min(m)) if m else 1.0
    for t in (lo, hi):
        # how far the crossing is from an edge
        p = o + t * d
        if shape[0] == "box":
            m.append(sorted(abs(abs(p[a]) - LD(shape[1][a]) / 2) for a in range(3))[1])
        elif shape[0] == "cylinder":
            m.append(max(abs(np.sqrt(p[0] ** 2 + p[1] ** 2) - LD(shape[2])), abs(abs(p[2]) - LD(shape[1]) / 2)))
    return [lo, hi], float(min(m)) if m else 1.0


def outward(shape, p):
    """Outward unit normal of the nearest surface."""
    p = np.array(p, LD)
    if shape[0] == "sphere":
        return np.array(p / np.sqrt(p @ p), float)
    if shape[0] == "cylinder":
        r = np.sqrt(p[0] ** 2 + p[1] ** 2)
        if abs(abs(p[2]) - LD(shape[1]) / 2) < abs(r - LD(shape[2])):
            return np.array([0, 0, math.copysign(1, p[2])])
        return np.array([p[0] / r, p[1] / r, 0], float)
    g = [abs(abs(p[a]) - LD(shape[1][a]) / 2) for a in range(3)]
    a = int(np.argmin(g))
    n = np.zeros(3)
    n[a] = math.copysign(1, p[a])
    return n


def photons(shape):
    """[(position, direction)]: the lattice and the delicate families"""
    e = extent(shape)
    ld = DIRS + (MORE if base.THOROUGH else [])
    fr = (-1.3, -0.45, -0.25, 0.0, 0.1, 0.4, 2.0) if not base.THOROUGH else (-3.0, -1.3, -0.49999, -0.45, -0.25, 0.0, 0.1, 1 / 3, 0.4, 0.75, 2.0)
    for f in itertools.product(fr, repeat=3):
        for d in ld:
            yield tuple(np.array(f) * e), tuple(unit(d))
    # next to edges, rims and tangents: inside and outside by 10^-k of the size
    for k in range(2, 11):
        for s in (-1, 1):
            q = 0.5 * (1 + s * 10.0 ** -k)
            for ax, other in itertools.permutations(range(3), 2):
                third = 3 - ax - other
                for sgn in (1, -1):
                    for tilt in (0.0, 0.3):
                        o = np.zeros(3)
                        d = np.zeros(3)
                        o[other] = sgn * q * e[other]
                        o[third] = 0.07 * e[third]
                        o[ax] = -0.9 * e[ax]
                        d[ax] = 1.0
                        if tilt:
                            o[third] -= 0.9 * e[ax] * tilt * min(1.0, e[third] / e[ax])
                            d[third] = tilt * min(1.0, e[third] / e[ax])
                        yield tuple(o), tuple(unit(d))
                        if shape[0] != "box":
                            # where the round surface is met exactly on an axis
                            o2 = o.copy()
                            o2[third] = 0.0
                            yield tuple(o2), tuple(unit(d))


    # through surface points at every angle down to grazing
    for p in list(surface_points(shape))[::7]:
        n = outward(shape, p)
        for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -2, 0.5)):
            u = np.array(w) - np.dot(w, n) * n
            if np.linalg.norm(u) < 1e-3:
                continue
            u = u / np.linalg.norm(u)
            for k in range(1, 8):
                for s in (1, -1):
                    d = unit(u + s * 10.0 ** -k * n)
                    yield tuple(p - 0.6 * float(e.max()) * d), tuple(d)


def tol_of(shape, o):
    return 2e-9 * float(extent(shape).max()) + 1e-13 * float(np.abs(o).max())


MARGIN = 3e-12


def decide(shape, o, d):
    """None if undecided, else the crossings ahead."""
    ts, m = roots(shape, o, d)
    s = float(extent(shape).max())
    if m < max(MARGIN * s, 1e-12):
        return None
    if any(abs(t) < 1e-7 * s for t in ts):
        return None
    return [t for t in ts if t > 0]


def conditioning(shape, o, d, t):
    """How far rounding may move a crossing: 1/cos of incidence."""
    p = np.array(o, LD) + t * np.array(d, LD)
    return 1.0 / max(1e-9, abs(float(np.dot(outward(shape, p), np.array(d, float)))))


def curved(shape, o, d, t):
    """Whether the crossing is on a curved surface, where the surface turns towards a grazing photon."""
    if shape[0] == "box":
        return False
    if shape[0] == "sphere":
        return True
    p = np.array(o, LD) + t * np.array(d, LD)
    return abs(float(outward(shape, p)[2])) < 0.5


def job_rays(a):
    si, part, parts = a
    shape = shapes()[si]
    g = make(shape)
    e = extent(shape)
    n = und = cross = 0
    bad = []
    kinds = {}

    def fail(kind, what, o, d):
        kinds[kind] = kinds.get(kind, 0) + 1
        if kinds[kind] <= 2:
            bad.append((f"{shape[0]}:{kind}", f"{shape}: photon at {o} along {d}: {what}", {"shape": shape, "position": o, "direction": d}))
    for i, (o, d) in enumerate(photons(shape)):
        if i % parts != part:
            continue
        want = decide(shape, o, d)
        if want is None:
            und += 1
            continue
        n += 1
        try:
            got = g.intersections(o, d)
            pts = [np.array(p, float) for p in got]
        except Exception as x:  # noqa
            fail("exception", f"{type(x).__name__}: {x}", o, d)
            continue
        tg = [float(np.dot(p - np.array(o), np.array(d))) for p in pts]
        tol = tol_of(shape, o)
        exp = [float(t) for t in want]
        if len(tg) != len(exp):
            fail("count", f"{len(tg)} intersections {tg}, the line crosses it {len(exp)} times ahead at {exp}", o, d)
            continue
        miss = [abs(x - y) > tol * min(1e5, conditioning(shape, o, d, want[j])) for j, (x, y) in enumerate(zip(tg, exp))]
        if any(miss):
            fail("place", f"intersections at distances {tg}, the surface is at {exp}", o, d)
            continue
        for p, t in zip(pts, want):
            cross += 1
            exact = np.array(np.array(o, LD) + t * np.array(d, LD), float)
            if np.abs(p - exact).max() > tol * min(1e5, conditioning(shape, o, d, t)):
                fail("off line", f"intersection {p} is not on the line, the crossing is at {exact}", o, d)
                continue
            inside = len(want) == 2 and t == want[0]
            if 2e-16 * (float(np.abs(o).max()) + float(t)) * conditioning(shape, o, d, t) > 1e-14 and curved(shape, o, d, t):
                # rounding along the photon moves the crossing off the surface, by up to the absolute tolerance
                continue
            try:
                nrm = np.array(g.normal(tuple(p)), float)
                ent = bool(g.is_entering(tuple(p), d))
                surf = bool(g.is_on_surface(tuple(p)))
            except Exception as x:  # noqa
                fail("normal refused", f"{type(x).__name__}: {x} at its own intersection {p}", o, d)
                continue
            ref = outward(shape, exact)
            if np.abs(nrm - ref).max() > 1e-6:
                fail("normal", f"normal {nrm} at {p}, outward is {ref}", o, d)
            if not surf:
                fail("surface", f"{p} is its own intersection yet not reported on the surface", o, d)
            if ent != inside:
                fail("entering", f"reported {'entering' if ent else 'leaving'} at {p}, normal {nrm}", o, d)
    return n, und, cross, bad


# ---- points ------------------------------------------------------------------------------------

def surface_points(shape):
    """(point, outward normal); none on an edge"""
    e = extent(shape)
    fr = [-0.5 + 1e-3, -0.3, 0.0, 0.125, 0.4] + [0.5 - 10.0 ** -k for k in range(3, 11)]
    if shape[0] == "box":
        for a in range(3):
            u, v = [x for x in range(3) if x != a]
            for s in (-1, 1):
                for fu, fv in itertools.product(fr, repeat=2):
                    p = np.zeros(3)
                    p[a], p[u], p[v] = s * 0.5 * e[a], fu * e[u], fv * e[v]
                    yield p
    elif shape[0] == "sphere":
        for d in DIRS + MORE:
            yield unit(d) * shape[1]
    else:
        for d in DIRS + MORE:
            if d[0] or d[1]:
                w = unit((d[0], d[1], 0))
                for fz in fr:
                    p = w * shape[2]
                    p[2] = fz * shape[1]
                    yield p
                for fr_ in fr[2:]:
                    for s in (-1, 1):
                        p = w * 2 * fr_ * shape[2]
                        p[2] = s * 0.5 * shape[1]
                        yield p


def coplanar_points(shape):
    """Outside, on the extension of a surface."""
    e = extent(shape) / 2
    if shape[0] == "box":
        for a, b in itertools.permutations(range(3), 2):
            for s, f in itertools.product((-1, 1), (1.01, -1.5, 4)):
                p = np.zeros(3)
                p[a], p[b], p[3 - a - b] = s * e[a], f * e[b], 0.1 * e[3 - a - b]
                yield p
    elif shape[0] == "cylinder":
        for s, f in itertools.product((-1, 1), (1.01, -1.5, 4)):
            yield np.array([0, f * e[1], s * e[2]])
            yield np.array([s * e[0], 0, f * e[2]])


def job_points(si):
    shape = shapes()[si]
    g = make(shape)
    size = float(extent(shape).min())
    n = 0
    bad, kinds = [], {}

    def fail(kind, what):
        kinds[kind] = kinds.get(kind, 0) + 1
        if kinds[kind] <= 2:
            bad.append((f"{shape[0]}:{kind}", f"{shape}: {what}", {"shape": shape, "what": what}))

    def gap(p):
        """signed distance outside (+) or inside (-), near the surface"""
        p = np.array(p, LD)
        if shape[0] == "sphere":
            return float(np.sqrt(p @ p) - LD(shape[1]))
        if shape[0] == "cylinder":
            return float(max(np.sqrt(p[0] ** 2 + p[1] ** 2) - LD(shape[2]), abs(p[2]) - LD(shape[1]) / 2))
        return float(max(abs(p[a]) - LD(shape[1][a]) / 2 for a in range(3)))
    for p in surface_points(shape):
        if shape[0] == "box" and sorted(abs(abs(p[a]) - e0) for a, e0 in enumerate(extent(shape) / 2))[1] < 1e-12:
            continue
        n += 1
        ref = outward(shape, p)
        try:
            if not g.is_on_surface(tuple(p)):
                fail("surface", f"surface point {p} is reported off the surface")
            nrm = np.array(g.normal(tuple(p)), float)
            if np.abs(nrm - ref).max() > 1e-6:
                fail("normal", f"normal {nrm} at {p}, outward is {ref}")
        except Exception as x:  # noqa
            fail("normal refused", f"{type(x).__name__}: {x} at surface point {p}")
        for k in (1, 3, 6, 9):
            for s in (1, -1):
                q = p + s * ref * size * 0.4 * 10.0 ** -k
                w = gap(q)
                if abs(w) < 1e-11 * max(1.0, size) or abs(w) < 1e-12:
                    continue
                n += 1
                try:
                    c, f = bool(g.contains(tuple(q))), bool(g.is_on_surface(tuple(q)))
                except Exception as x:  # noqa
                    fail("point refused", f"{type(x).__name__}: {x} at point {q}")
                    continue
                if c != (w < 0):
                    fail("contains", f"{q} is {'inside' if w < 0 else 'outside'} by {abs(w)}, contains says {c}")
                if f:
                    fail("false surface", f"{q} is {abs(w)} off the surface, reported on it")
    for q in coplanar_points(shape):
        n += 1
        if bool(g.contains(tuple(q))):
            fail("contains", f"{q} is outside by {gap(q)}, contains says True")
        if g.is_on_surface(tuple(q)):
            fail("false surface", f"{q} is {gap(q)} off the surface, reported on it")
    e = extent(shape)
    for f in itertools.product((-1.5, -0.501, -0.499, -0.3, -0.1, 0.0, 0.2, 0.45, 0.499, 0.501, 0.6, 4.0), repeat=3):
        q = np.array(f) * e
        w = gap(q)
        if abs(w) < 1e-9 * size:
            continue
        n += 1
        c = bool(g.contains(tuple(q)))
        if c != (w < 0):
            fail("contains", f"{q} is {'inside' if w < 0 else 'outside'} by {abs(w)}, contains says {c}")
        if g.is_on_surface(tuple(q)):
            fail("false surface", f"{q} is {abs(w)} off the surface, reported on it")
    return n, bad


# ---- meshes -------------------------------------------------------------------------------------

def meshes():
    import trimesh
    def lshape():
        a = trimesh.creation.box(extents=(1.0, 1.0, 1.0))
        # a concave prism: a square with a notch, extruded
        pts = np.array([(0, 0), (3, 0), (3, 1), (1.5, 0.8), (1, 3), (0, 3)], float)
        tri = [(0, 1, 2), (0, 2, 3), (0, 3, 5), (3, 4, 5)]
        v = np.array([(x, y, 0) for x, y in pts] + [(x, y, 1.25) for x, y in pts])
        f = [(c, b, a_) for a_, b, c in tri] + [(a_ + 6, b + 6, c + 6) for a_, b, c in tri]
        for i in range(6):
            j = (i + 1) % 6
            f += [(i, j, j + 6), (i, j + 6, i + 6)]
        return trimesh.Trimesh(vertices=v, faces=f, process=True)
    def tetra():
        return trimesh.Trimesh(vertices=[(0, 0, 0), (2, 0, 0), (0, 3, 0), (0, 0, 1.5)], faces=[(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)])
    return {"tetrahedron": tetra, "icosphere": lambda: trimesh.creation.icosphere(subdivisions=1, radius=1.5), "notched prism": lshape,
            "brick": lambda: trimesh.creation.box(extents=(1.0, 2.0, 0.5))}


def mesh_cross(V, F, o, d):
    """Crossings of the line with triangles, and the margin to edges."""
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    e1, e2 = b - a, c - a
    h = np.cross(d, e2)
    det = np.einsum("ij,ij->i", e1, h)
    out, m = [], 1.0
    nrm = np.cross(e1, e2)
    nrm = nrm / np.linalg.norm(nrm, axis=1)[:, None]
    for i in range(len(F)):
        s = o - a[i]
        if abs(np.dot(nrm[i], d)) < 1e-9:
            # parallel: undecided if the line runs in the plane near the triangle
            if abs(np.dot(s, nrm[i])) < 1e-6:
                m = 0.0
            continue
        u = np.dot(s, h[i]) / det[i]
        q = np.cross(s, e1[i])
        v = np.dot(d, q) / det[i]
        t = np.dot(e2[i], q) / det[i]
        w = min(u, v, 1 - u - v)
        m = min(m, abs(w)) if abs(w) < 1e-5 else m
        if w > 0:
            out.append((float(t), nrm[i]))
    return sorted(out, key=lambda x: x[0]), m


def job_mesh(name):
    from pvtrace import Mesh
    tm = meshes()[name]()
    shift = np.array(tm.center_mass)
    V, F = np.array(tm.vertices) - shift, np.array(tm.faces)
    g = Mesh(tm)
    n = und = 0
    bad, kinds = [], {}

    def fail(kind, what):
        kinds[kind] = kinds.get(kind, 0) + 1
        if kinds[kind] <= 2:
            bad.append((f"mesh:{name}:{kind}", f"{name}: {what}", {"mesh": name, "what": what}))
    if np.abs(np.array(g.trimesh.vertices) - V).max() > 1e-9:
        fail("placement", "the mesh is not centred on its centre of mass")
    size = np.ptp(V, axis=0)
    # towards every corner and middle of an edge, inside and outside
    for v in list(V) + [0.5 * (V[f[i]] + V[f[i - 1]]) for f in F for i in range(3)]:
        for s in (0.5, 0.8, 0.97, 1.03):
            p = s * v
            ref = 0
            for d in ((0.31, 0.77, 0.55), (-0.5, 0.21, 0.83), (0.9, -0.33, 0.2)):
                cr, m = mesh_cross(V, F, p, unit(d))
                ref += 0 if m < 1e-5 else 1 if len([1 for t, _ in cr if t > 0]) % 2 else -1
            if abs(ref) < 2:
                continue
            n += 1
            if bool(g.contains(tuple(p))) != (ref > 0):
                fail("contains", f"{tuple(p)} is {'inside' if ref > 0 else 'outside'}, contains says {ref < 0}")
    for f in itertools.product((-1.1, -0.37, -0.12, 0.03, 0.21, 0.9), repeat=3):
        o = np.array(f) * size
        for d in DIRS + (MORE if base.THOROUGH else []):
            d = unit(d)
            cr, m = mesh_cross(V, F, o, d)
            if m < 1e-5 or any(abs(t) < 1e-6 for t, _ in cr):
                und += 1
                continue
            n += 1
            inside = len([t for t, _ in cr if t > 0]) % 2 == 1
            exp = [(t, w) for t, w in cr if t > 0]
            got = [np.array(p) for p in g.intersections(tuple(o), tuple(d))]
            tg = [float(np.dot(p - o, d)) for p in got]
            if len(tg) != len(exp) or any(abs(a - b[0]) > 1e-8 for a, b in zip(tg, exp)):
                fail("intersections", f"photon at {tuple(o)} along {tuple(d)}: intersections at {tg}, the triangles are at {[t for t, _ in exp]}")
                continue
            for p, (t, w) in zip(got, exp):
                try:
                    nr = np.array(g.normal(tuple(p)))
                    en = bool(g.is_entering(tuple(p), tuple(d)))
                    sf = bool(g.is_on_surface(tuple(p)))
                except Exception as x:  # noqa
                    fail("normal refused", f"{type(x).__name__}: {x} at its own intersection {tuple(p)}")
                    continue
                if np.abs(nr - w).max() > 1e-6:
                    fail("normal", f"normal {nr} at {p}, outward is {w}")
                if en != (np.dot(w, d) < 0):
                    fail("entering", f"reported {'entering' if en else 'leaving'} at {p} along {d}")
                if not sf:
                    fail("surface", f"{p} is its own intersection yet not reported on the surface")
        c = bool(g.contains(tuple(o)))
        ref = 0
        for d in ((0.31, 0.77, 0.55), (-0.5, 0.21, 0.83), (0.9, -0.33, 0.2)):
            cr, m = mesh_cross(V, F, o, unit(d))
            ref += 1 if len([1 for t, _ in cr if t > 0]) % 2 else -1
        if abs(ref) == 3 and c != (ref > 0):
            fail("contains", f"{tuple(o)} is {'inside' if ref > 0 else 'outside'}, contains says {c}")
    return n, und, bad


# ---- the engine, and the tracer ----------------------------------------------------------------------

PLACES = {"rest": None, "placed": ((1.25, -2.5, 3.0), 0.8, (1.0, 2.0, -1.0))}


class Feed:
    def __init__(self, items):
        self.items, self.i = items, 0

    def __call__(self):
        self.i += 1
        return self.items[self.i - 1]


def job_engine(a):
    si, place, stride, tracer = a
    from pvtrace import Node, Scene, Material, Sphere, Light, photon_tracer, engine
    from pvtrace.light.ray import Ray
    shape = shapes()[si]
    s = float(extent(shape).max())
    world = Node(name="world", geometry=Sphere(max(60.0, 12.0 * s), material=Material(1.0)))
    node = Node(name="it", parent=world, geometry=make(shape, material=Material(1.0)))
    if PLACES[place]:
        loc, ang, ax = PLACES[place]
        node.location = loc
        node.rotate(ang, ax)
    M = np.array(node.pose)
    todo = []
    for i, (o, d) in enumerate(photons(shape)):
        if i % stride:
            continue
        ts, m = roots(shape, o, d)
        # world coordinates are rounded
        if m < max(MARGIN * 30 * s, 1e-12, 1e-10 * s if PLACES[place] else 0) or any(abs(t) < 1e-6 * s for t in ts):
            continue
        # the tracers treat crossings within EPS_ZERO of the photon as behind it, whatever the incidence (see GRAZING)
        if len(ts) == 2 and ts[1] - ts[0] < 1e-10:
            continue
        reach = 2e-16 * (5.0 + float(np.abs(o).max()) + max([abs(float(t)) for t in ts] + [0]))
        delicate = [t for t in ts if reach * conditioning(shape, o, d, t) > 1e-14]
        grazing = bool(delicate)
        if grazing and (tracer or PLACES[place] or any(curved(shape, o, d, t) for t in delicate)):
            continue
        todo.append((o, d, [t for t in ts if t > 0], grazing))
    P = [tuple((M[:3, :3] @ np.array(o) + M[:3, 3]).tolist()) for o, d, _, _ in todo]
    D = [tuple((M[:3, :3] @ np.array(d)).tolist()) for o, d, _, _ in todo]
    if tracer:
        def hist():
            sc = Scene(world)
            for p, d in zip(P, D):
                try:
                    yield list(photon_tracer.step_forward(sc, Ray(p, d, 555.0, source="lamp")))
                except Exception as x:  # noqa
                    yield x
        hs = hist()
    else:
        Node(name="lamp", parent=world, light=Light(position=Feed(P), direction=Feed(D), name="lamp"))
        res = engine.simulate(Scene(world), len(P), seed=1, workers=1, record_every=1, max_events=128)
        hs = res.histories()
    who = "tracer" if tracer else "engine"
    n, bad, kinds = 0, [], {}

    def fail(kind, what, o, d):
        kinds[kind] = kinds.get(kind, 0) + 1
        if kinds[kind] <= 2:
            bad.append((f"{who}:{shape[0]}:{kind}", f"{who}, {shape} ({place}): photon at {o} along {d}: {what}",
                        {"shape": shape, "place": place, "position": o, "direction": d}))
    for (o, d, want, grazing), p0, d0, h in zip(todo, P, D, hs):
        n += 1
        if isinstance(h, Exception):
            fail("exception", f"{type(h).__name__}: {h}", o, d)
            continue
        ev = [(r, e.name, m) for r, e, m in h]
        cr = [x for x in ev if x[1] == "TRANSMIT"]
        if ev[0][1] != "GENERATE" or ev[-1][1] != "EXIT" or len(ev) != len(cr) + 2 or any(x[2]["hit"] != "it" for x in cr):
            fail("events", f"history {[(x[1], (x[2] or {}).get('hit')) for x in ev]}", o, d)
            continue
        tg = [float(np.dot(np.subtract(x[0].position, p0), d0)) for x in cr]
        exp = [float(t) for t in want]
        tol = tol_of(shape, o) + 1e-12
        if grazing:
            # a crossing may be reported again (GRAZING)
            near = 1e-10 * min(1e5, max([conditioning(shape, o, d, t) for t in want] + [1.0]))
            keep = [i for i in range(len(tg)) if not i or tg[i] - tg[i - 1] > min(near, (exp[1] - exp[0]) / 3 if len(exp) > 1 else near)]
            tg, cr = [tg[i] for i in keep], [cr[i] for i in keep]
        if len(tg) != len(exp) or any(abs(x - y) > tol * min(1e5, conditioning(shape, o, d, t)) for x, y, t in zip(tg, exp, want)):
            fail("place", f"crosses the shape after {tg}, its surface is at {exp}", o, d)
            continue
        for x, t in zip(cr, want):
            entering = len(want) == 2 and t == want[0]
            ref = M[:3, :3] @ outward(shape, np.array(o, LD) + t * np.array(d, LD))
            if np.abs(np.array(x[2]["normal"]) - ref).max() > 1e-6:
                fail("normal", f"normal {x[2]['normal']} at {x[0].position}, outward is {ref}", o, d)
            if not grazing and (x[2]["container"], x[2]["adjacent"]) != (("world", "it") if entering else ("it", "world")):
                fail("side", f"crossing at {x[0].position} from {x[2]['container']} to {x[2]['adjacent']}", o, d)
    return n, bad


# crossings which leave the photon further than EPS_ZERO before the surface it has just crossed
GRAZING = [(("sphere", 30), (-78.0, 0.0, 120.0), (0.7071067811865475, 0.0, -0.7071067811865475))]


def job_grazing(i):
    from pvtrace import Node, Scene, Material, Sphere, Light, photon_tracer, engine
    from pvtrace.light.ray import Ray
    shape, o, d = GRAZING[i]
    out = []
    world = Node(name="world", geometry=Sphere(720.0, material=Material(1.0)))
    Node(name="it", parent=world, geometry=make(shape, material=Material(1.0)))
    want = [float(t) for t in roots(shape, o, d)[0]]
    for who in ("tracer", "engine"):
        if who == "tracer":
            h = list(photon_tracer.step_forward(Scene(world), Ray(o, d, 555.0, source="lamp")))
        else:
            Node(name="lamp", parent=world, light=Light(position=Feed([o]), direction=Feed([d]), name="lamp"))
            h = next(iter(engine.simulate(Scene(world), 1, seed=1, workers=1, record_every=1, max_events=16).histories()))
        ts = [float(np.dot(np.subtract(r.position, o), d)) for r, e, m in h if e.name == "TRANSMIT"]
        if len(ts) != len(want) or any(abs(a - b) > 1e-9 for a, b in zip(ts, want)):
            kind = "double crossing" if sorted({round(t, 9) for t in ts}) == [round(t, 9) for t in want] else "other"
            out.append((f"{who}:grazing {i}:{kind}", f"{who}, {shape}: photon at {o} along {d} crosses it after {ts}, its surface is at {want}",
                        {"shape": shape, "position": o, "direction": d}))
    return 2, out


def dispatch(j):
    return j[0], {"grazing": job_grazing, "rays": job_rays, "points": job_points, "mesh": job_mesh, "engine": job_engine}[j[0]](j[1])


def main(chk):
    chk.assumptions += ["photons and points within a relative %g of an edge, rim or tangent are not decided: there the answer is a matter of rounding" % MARGIN,
                        "crossings counted by the tracers are compared where rounding along the photon stays below their absolute tolerance (see DESIGN: grazing double crossings)",
                        "positions up to a few hundred units from the origin: tolerances of the library are absolute (2e-13)",
                        "meshes: margin 1e-5 of a triangle to its edges"]
    from mc import kernel
    kernel.ensure()
    jobs = []
    for si in range(len(shapes())):
        jobs += [("rays", (si, k, 4)) for k in range(4)] + [("points", si)]
        jobs += [("engine", (si, pl, 1, False)) for pl in PLACES]
        jobs += [("engine", (si, pl, 23 if not base.THOROUGH else 7, True)) for pl in PLACES]
    jobs += [("mesh", m) for m in meshes()] + [("grazing", i) for i in range(len(GRAZING))]
    tot = {}
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"job": j, "trace": r[1]})
            continue
        kind, r = r
        bad = r[-1]
        label = kind if kind != "engine" else ("tracer" if j[1][3] else "engine")
        tot[label] = tot.get(label, 0) + r[0]
        if kind == "engine":
            chk.add("transitions", r[0])
        chk.add("states", r[0])
        chk.add("traces_validated_against_impl", r[0])
        if kind == "rays":
            chk.add("undecided", r[1])
            chk.add("transitions", r[2])
        elif kind == "mesh":
            chk.add("undecided", r[1])
        for b in bad:
            chk.violation(*b)
    for k, v in tot.items():
        chk.sample({"family": k, "decided": v}, 10)
