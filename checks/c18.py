"""C18: optics of surfaces on grids of index pairs and angles - grazing, critical and Brewster neighbours, equal and nearly equal
media - against formulae in extended precision: the helper functions, the delegates and Surface with every normal
orientation, and photons of the tracer and the engine on faces of all shapes. The reflected fraction is measured
on the random draw: a grid over it finds where the outcome changes, bisection measures the fraction to 1e-9."""
import itertools
import math

import numpy as np

from mc import base

LD = np.longdouble
INDICES = (1.0, 1.0 + 1e-12, 1.0003, 1.33, 1.5, 1.9, 4.0)
NEAR = [10.0 ** -k for k in range(1, 16)]


def angles(n1, n2):
    a = [0.0, math.pi / 2 - 1e-3] + [i * math.pi / 2 / 24 for i in range(1, 24)] + [e for e in NEAR[2:]] + [math.pi / 2 - e for e in NEAR[:11]]
    special = [math.atan2(n2, n1)]
    if n2 < n1:
        special.append(math.asin(n2 / n1))
    for s in special:
        a += [s] + [s + e for e in NEAR] + [s - e for e in NEAR] + [math.nextafter(s, 0), math.nextafter(s, 2)]
    return sorted({x for x in a if 0 <= x < math.pi / 2})


def fresnel(angle, n1, n2):
    """Unpolarised reflectivity, extended precision."""
    c, s = np.cos(LD(angle)), np.sin(LD(angle))
    r = LD(n1) / LD(n2)
    k2 = c * c + (1 - r) * (1 + r) * s * s
    if k2 <= 0:
        return 1.0
    k = np.sqrt(k2)
    rs = ((LD(n1) * c - LD(n2) * k) / (LD(n1) * c + LD(n2) * k)) ** 2
    rp = ((LD(n1) * k - LD(n2) * c) / (LD(n1) * k + LD(n2) * c)) ** 2
    return float((rs + rp) / 2)


def bracket(angle, n1, n2, d=4e-15):
    """Reflectivities of angles which rounding cannot tell apart."""
    e = (0,) if n1 == n2 else (-4e-16, 0, 4e-16)
    v = [fresnel(min(math.pi / 2 - 1e-18, max(0.0, angle + x)), LD(n1) * (1 + LD(y)), n2) for x in (-d, -d / 3, 0, d / 3, d) for y in e]
    return min(v) - 1e-9, max(v) + 1e-9


def unit(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


NORMALS = [unit(v) for v in ((0, 0, 1), (1, 0, 0), (0, -1, 0), (1, 1, 0), (1, -2, 3), (-1e-3, 1, 1e-6), (-1, -1, -1))]


def frame(n):
    a = np.array([1.0, 0, 0]) if abs(n[0]) < 0.9 else np.array([0, 1.0, 0])
    u = unit(a - np.dot(a, n) * n)
    return u, np.cross(n, u)


def incoming(n, angle, phi):
    """Direction at `angle` with the normal n, going along +n."""
    u, v = frame(n)
    return math.cos(angle) * n + math.sin(angle) * (math.cos(phi) * u + math.sin(phi) * v)


class Fails:
    def __init__(self, who):
        self.who, self.bad, self.n = who, [], {}

    def __call__(self, kind, msg, rep=None):
        self.n[kind] = self.n.get(kind, 0) + 1
        if self.n[kind] <= 2:
            self.bad.append((f"{self.who}:{kind}", f"{self.who}: {msg}", rep or {"what": msg}))


def mirror(d, n):
    return np.asarray(d) - 2 * np.dot(d, n) * np.asarray(n)


def refraction(d, n, n1, n2):
    """Expected refracted direction (n along the photon) and its tolerance; None beyond the critical angle."""
    d, n = np.array(d, LD), np.array(n, LD)
    cos = d @ n
    r = LD(n1) / LD(n2)
    tang = (d - cos * n) * r
    c2 = cos * cos * r * r + 1 - r * r
    e = 1e-14 * float(1 + r * r)
    if c2 < -e:
        return None, None
    c = np.sqrt(max(c2, LD(0)))
    tol = float(min(np.sqrt(LD(e)), e / max(c, LD(1e-30)))) + 1e-12
    return np.array(tang + c * n, float), tol


def check_directions(f, what, d, n, n1, n2, refl, trans, may_transmit):
    """n: unit normal of any orientation"""
    if refl is not None:
        want = mirror(d, n)
        if not np.abs(np.asarray(refl) - want).max() < 1e-9:
            f("reflected direction", f"{what}: reflected along {refl}, the mirror image is {want}")
    if trans is not None and may_transmit:
        m = n if np.dot(n, d) > 0 else -np.asarray(n)
        want, tol = refraction(d, m, n1, n2)
        if want is None:
            f("transmitted beyond critical", f"{what}: transmitted beyond the critical angle")
        elif not np.abs(np.asarray(trans) - want).max() < tol:
            f("refracted direction", f"{what}: refracted along {trans}, Snell's law gives {want}")


def job_functions(a):
    n1, n2 = a
    from pvtrace.material import utils as U
    f = Fails("functions")
    n = 0
    for ang in angles(n1, n2):
        n += 1
        R = U.fresnel_reflectivity(ang, n1, n2)
        lo, hi = bracket(ang, n1, n2)
        what = f"from index {n1} to {n2} at {ang!r} ({math.degrees(ang):.9f} degrees)"
        if not 0 <= R <= 1:
            f("range", f"{what}: reflectivity {R}")
        elif not lo <= R <= hi:
            f("fresnel", f"{what}: reflectivity {R}, Fresnel's equations give {fresnel(ang, n1, n2)}")
        # reciprocity
        s = n1 / n2 * math.sin(ang)
        if R < 1 and s < 1:
            back = math.asin(s)
            R2 = U.fresnel_reflectivity(back, n2, n1)
            lo2, hi2 = bracket(back, n2, n1)
            if not lo2 <= R2 <= hi2 or (abs(R - R2) > 1e-6 and hi2 - lo2 < 1e-7 and hi - lo < 1e-7):
                f("reciprocity", f"{what}: {R}, the way back {R2}")
        for nn, phi in itertools.product(NORMALS, (0.0, 0.7, 2.5, -1.9)):
            for sign in (1, -1):
                d = incoming(nn, ang, phi)
                n += 1
                for form in (tuple, np.array):
                    refl = U.specular_reflection(form(d.tolist()), form((sign * nn).tolist()))
                    trans = None
                    if R < 1 and lo < 1 - 1e-7:
                        trans = U.fresnel_refraction(form(d.tolist()), form((sign * nn).tolist()), n1, n2)
                    check_directions(f, f"{what}, direction {d}, normal {sign * nn}", d, sign * nn, n1, n2, refl, trans, True)
    return n, n, f.bad


# ---- delegates and surfaces --------------------------------------------------------------------------------------------

def measure(outcomes):
    """outcomes(list of draws) -> list of bool. Returns the fraction of true (1e-9), None if it has no single threshold."""
    N = 48
    g = [0.0] + [(i + 0.5) / N for i in range(N)] + [1 - 2.0 ** -53]
    o = outcomes(g)
    ch = [i for i in range(len(g) - 1) if o[i] != o[i + 1]]
    if not ch:
        return (1.0 if o[0] else 0.0), 1e-9, o
    if len(ch) > 1:
        return sum(o[1:-1]) / N, 1.5 / N, o
    lo, hi = g[ch[0]], g[ch[0] + 1]
    for _ in range(40):
        m = 0.5 * (lo + hi)
        if outcomes([m])[0] == o[ch[0]]:
            lo = m
        else:
            hi = m
    return (lo if o[0] else 1 - lo), 1e-9, o


def job_surface(a):
    """Surface with every delegate, on a sphere (every normal) and a box."""
    n1, n2 = a
    from mc import choice
    choice.install()
    from mc.choice import DRIVER
    from pvtrace import Node, Material, Sphere, Box
    from pvtrace.light.ray import Ray
    from pvtrace.material.surface import Surface, NullSurfaceDelegate, FresnelSurfaceDelegate, SurfaceDelegate
    f = Fails("surface")
    n = 0

    class Custom(SurfaceDelegate):
        r = 0.25

        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return self.r

        def reflected_direction(self, surface, ray, geometry, container, adjacent):
            return (0.0, 0.6, 0.8)

        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            return (0.6, 0.0, -0.8)
    for gi, (geo, pts) in enumerate(((Sphere(2.0, material=Material(n2)), [(2.0 * v, v) for v in NORMALS]),
                                     (Box((2.0, 4.0, 6.0), material=Material(n2)), [(np.array((1.0, .2, .3)), np.array((1.0, 0, 0))), (np.array((.1, -2.0, .3)), np.array((0, -1.0, 0))),
                                                                                      (np.array((.1, .2, -3.0)), np.array((0, 0, -1.0)))]))):
        outside = Node(name="outside", geometry=Sphere(100.0, material=Material(n1)))
        inside = Node(name="inside", parent=outside, geometry=geo)
        for pi, (p, nn) in enumerate(pts):
            for entering in (True, False):
                c, ad = (outside, inside) if entering else (inside, outside)
                m1, m2 = (n1, n2) if entering else (n2, n1)
                al = angles(m1, m2)
                for ai, ang in enumerate(al):
                    if not base.THOROUGH and (ai + pi) % 4 and gi == 0:
                        continue
                    d = incoming(-nn if entering else nn, ang, 0.4 + pi)
                    ray = Ray(tuple(p.tolist()), tuple(d.tolist()), 555.0, travelled=1.5, duration=2e-9, source="lamp")
                    lo, hi = bracket(ang, m1, m2)
                    what = f"{'entering' if entering else 'leaving'} {type(geo).__name__} at {p}, index {m1} to {m2}, {math.degrees(ang):.9f} degrees"
                    for deleg in (None, FresnelSurfaceDelegate()):
                        if deleg is not None and ai % 5:
                            continue
                        s = Surface() if deleg is None else Surface(delegate=deleg)

                        def out(g):
                            r = []
                            for v in g:
                                DRIVER.default = v
                                DRIVER.start({})
                                r.append(bool(s.is_reflected(ray, geo, c, ad)))
                            return r
                        fr, tol, o = measure(out)
                        n += len(o)
                        if not lo - tol <= fr <= hi + tol:
                            f("fraction", f"{what}: reflects a fraction {fr}, Fresnel's equations give {fresnel(ang, m1, m2)}")
                        refl = s.reflect(ray, geo, c, ad)
                        trans = s.transmit(ray, geo, c, ad) if fr < 1 and lo < 1 - 1e-7 else None
                        check_directions(f, what, d, nn, m1, m2, refl.direction, trans.direction if trans else None, True)
                        for r in (refl, trans):
                            if r is not None and (tuple(r.position), r.wavelength, r.travelled, r.duration, r.source) != (tuple(ray.position), 555.0, 1.5, 2e-9, "lamp"):
                                f("photon", f"{what}: the surface changed more than the direction: {r!r}")
                    if ai % 3:
                        continue
                    s = Surface(delegate=NullSurfaceDelegate())
                    fr, _, o = measure(out)
                    n += len(o)
                    t = s.transmit(ray, geo, c, ad)
                    if fr != 0 or tuple(t.direction) != tuple(ray.direction) or t.position != ray.position:
                        f("null surface", f"{what}: a null surface reflects {fr} and transmits along {t.direction}")
                for rv in (0.0, 1e-12, 0.25, 0.5, 0.9999, 1.0, 0, 1):
                    dl = Custom()
                    dl.r = rv
                    s = Surface(delegate=dl)
                    fr, tol, o = measure(out)
                    n += len(o)
                    if abs(fr - rv) > tol:
                        f("custom fraction", f"a delegate with reflectivity {rv} reflects a fraction {fr}")
                    if tuple(s.reflect(ray, geo, c, ad).direction) != (0.0, 0.6, 0.8) or tuple(s.transmit(ray, geo, c, ad).direction) != (0.6, 0.0, -0.8):
                        f("custom direction", "a delegate's directions are not used")
    return n, n, f.bad


# ---- photons -----------------------------------------------------------------------------------------------------------

SHAPES = {
    "box": (("box", (2.0, 4.0, 6.0)), [((1, .2, .3), (1, 0, 0)), ((-1, .2, -.3), (-1, 0, 0)), ((.1, 2, .3), (0, 1, 0)), ((.1, -2, .3), (0, -1, 0)), ((.1, .2, 3), (0, 0, 1)), ((.1, .2, -3), (0, 0, -1))]),
    "sphere": (("sphere", 2.0), [(tuple(2.0 * v), tuple(v)) for v in NORMALS]),
    "cylinder": (("cylinder", 4.0, 1.5), [((1.5, 0, .3), (1, 0, 0)), ((0, -1.5, -1), (0, -1, 0)), ((.9, 1.2, .5), (.6, .8, 0)), ((.4, .2, 2), (0, 0, 1)), ((-.4, .6, -2), (0, 0, -1))])}
PLACES = {"rest": None, "turned": ((0.5, -1.0, 0.25), 1.1, (1.0, -2.0, 0.5))}


def build(shape, n1, n2, place, surface=None):
    from pvtrace import Node, Scene, Material, Sphere, Box, Cylinder
    world = Node(name="world", geometry=Sphere(60.0, material=Material(n1)))
    mat = Material(n2) if surface is None else Material(n2, surface=surface)
    sh = SHAPES[shape][0]
    g = {"box": Box, "sphere": Sphere, "cylinder": Cylinder}[sh[0]](*sh[1:], material=mat)
    node = Node(name="it", parent=world, geometry=g)
    if PLACES[place]:
        node.location = PLACES[place][0]
        node.rotate(*PLACES[place][1:])
    return world, np.array(node.pose)


def configs(shape, n1, n2, place):
    """[(position, direction, normal, m1, m2, angle, entering, flat)] in the world frame"""
    out = []
    _, M = build(shape, n1, n2, place)
    R, t = M[:3, :3], M[:3, 3]
    for pi, (p, nn) in enumerate(SHAPES[shape][1]):
        p, nn = np.array(p, float), np.array(nn, float)
        flat = shape == "box" or (shape == "cylinder" and abs(nn[2]) > 0.5)
        for entering in (True, False):
            m1, m2 = (n1, n2) if entering else (n2, n1)
            for ai, ang in enumerate(angles(m1, m2)):
                if math.cos(ang) < (1e-8 if flat and place == "rest" else 1e-4):
                    continue
                if not base.THOROUGH and (ai + pi) % 3 and not (flat and place == "rest"):
                    continue
                d = incoming(-nn if entering else nn, ang, 0.4 + pi)
                # a grazing photon stays on its side of a curved surface for a short way only
                o = p - (0.05 if flat else min(0.05, 0.5 * math.cos(ang))) * d
                out.append((R @ o + t, R @ d, R @ nn, m1, m2, ang, entering, flat))
    return out


class Feed:
    def __init__(self, items):
        self.items, self.i = items, 0

    def __call__(self):
        self.i += 1
        return self.items[self.i - 1]


def first_hit(h):
    ev = [(r, e.name, m) for r, e, m in h]
    if len(ev) < 2 or ev[1][1] not in ("REFLECT", "TRANSMIT") or ev[1][2]["hit"] != "it":
        return None
    return ev[1][1] == "REFLECT", tuple(ev[1][0].direction)


def job_photons(a):
    who, shape, n1, n2, place, null = a
    f = Fails(who + (" with a null surface" if null else ""))
    from pvtrace import Node, Scene, Light, photon_tracer, engine
    from pvtrace.light.ray import Ray
    from pvtrace.material.surface import Surface, NullSurfaceDelegate
    world, _ = build(shape, n1, n2, place, Surface(delegate=NullSurfaceDelegate()) if null else None)
    cf = configs(shape, n1, n2, place)
    if who == "tracer":
        cf = cf[:: (7 if not base.THOROUGH else 2)]
    count = 0
    if who == "engine":
        from mc import kernel

        def run(todo):
            """todo: [(config index, {draw: value})] -> outcomes and draws used"""
            nonlocal count
            count += len(todo)
            w2, _ = build(shape, n1, n2, place, Surface(delegate=NullSurfaceDelegate()) if null else None)
            Node(name="lamp", parent=w2, light=Light(position=Feed([tuple(cf[i][0].tolist()) for i, _ in todo]), direction=Feed([tuple(cf[i][1].tolist()) for i, _ in todo]), name="lamp"))
            with kernel.Script([tuple(sorted(d.items())) for _, d in todo]) as s:
                res = engine.simulate(Scene(w2), len(todo), seed=s.seed, workers=1, record_every=1, max_events=8, maxsteps=2)
            return [first_hit(h) for h in res.histories()], s.used.tolist()
    else:
        from mc import choice
        choice.install()
        choice.DRIVER.default = 0.5
        sc = Scene(world)

        def run(todo):
            nonlocal count
            count += len(todo)
            out, used = [], []
            for i, d in todo:
                choice.DRIVER.start(d)
                h = []
                for x in photon_tracer.step_forward(sc, Ray(tuple(cf[i][0].tolist()), tuple(cf[i][1].tolist()), 555.0, source="lamp"), maxsteps=2):
                    h.append(x)
                    if len(h) == 2:
                        break
                out.append(first_hit(h))
                used.append(choice.DRIVER.n)
            return out, used
    o0, used = run([(i, {}) for i in range(len(cf))])
    N = 24
    g = [0.0] + [(k + 0.5) / N for k in range(N)] + [1 - 2.0 ** -53]
    # sweep every draw used up to the first interaction
    todo = [(i, k, v) for i in range(len(cf)) for k in range(min(2, used[i])) for v in g]
    res, _ = run([(i, {k: v}) for i, k, v in todo])
    sweep = {}
    for (i, k, v), r in zip(todo, res):
        sweep.setdefault(i, {}).setdefault(k, []).append((v, r))
    seen = {i: [o0[i]] + [r for s in sweep.get(i, {}).values() for _, r in s] for i in range(len(cf))}
    fr, act = {}, []
    for i in range(len(cf)):
        pos, d, nn, m1, m2, ang, entering, flat = cf[i]
        what = f"{'entering' if entering else 'leaving'} {shape} ({place}), index {m1} to {m2}, {math.degrees(ang):.9f} degrees, from {pos.tolist()} along {d.tolist()}"
        if any(r is None for r in seen[i]):
            f("missed", f"{what}: the photon does not meet the shape")
            continue
        vary = {k: s for k, s in sweep.get(i, {}).items() if len({r[0] for _, r in s}) > 1}
        if not vary:
            fr[i] = (1.0 if o0[i][0] else 0.0, 1.0 / N, what)
            if len({r[0] for r in seen[i]}) == 1 and not null:
                # never changes: the fraction is 0 or 1, to the extreme draws
                fr[i] = (fr[i][0], 1e-9, what)
        elif len(vary) == 1:
            k, s = next(iter(vary.items()))
            ch = [j for j in range(len(s) - 1) if s[j][1][0] != s[j + 1][1][0]]
            if len(ch) == 1:
                act.append([i, k, s[ch[0]][0], s[ch[0] + 1][0], s[ch[0]][1][0], s[0][1][0], what])
            else:
                fr[i] = (sum(r[0] for _, r in s[1:-1]) / N, 2.0 / N, what)
    for _ in range(32 if who == "engine" else 14):
        if not act:
            break
        mids = [0.5 * (x[2] + x[3]) for x in act]
        res, _ = run([(x[0], {x[1]: m}) for x, m in zip(act, mids)])
        for x, m, r in zip(act, mids, res):
            seen[x[0]].append(r)
            if r is not None and r[0] == x[4]:
                x[2] = m
            else:
                x[3] = m
    for i, k, lo, hi, left, start, what in act:
        fr[i] = (lo if start else 1 - lo, 2 * (hi - lo) + 1e-9, what)
    for i, (v, tol, what) in fr.items():
        pos, d, nn, m1, m2, ang, entering, flat = cf[i]
        # curved surfaces: the photon meets the surface within 1e-13 of the planned point
        lo, hi = bracket(ang, m1, m2, 4e-15 if flat and place == "rest" else 1e-13 if flat else 1e-11)
        if null:
            if v != 0 or any(np.abs(np.subtract(r[1], d)).max() > 1e-12 for r in seen[i]):
                f("null surface", f"{what}: reflected, or deviated from {d}")
            continue
        if not lo - tol <= v <= hi + tol:
            f("fraction", f"{what}: reflects a fraction {v}, Fresnel's equations give {fresnel(ang, m1, m2)}")
        for r in (next((r for r in seen[i] if r and r[0]), None), next((r for r in seen[i] if r and not r[0]), None)):
            if r is None:
                continue
            if r[0]:
                want = mirror(d, nn)
                if not np.abs(np.subtract(r[1], want)).max() < 1e-8:
                    f("reflected direction", f"{what}: reflected along {r[1]}, the mirror image is {want}")
            elif lo < 1 - 1e-7:
                want, t2 = refraction(d, nn if np.dot(nn, d) > 0 else -nn, m1, m2)
                t2 = t2 if flat and place == "rest" else t2 * 1e3 + 1e-9
                if want is None or not np.abs(np.subtract(r[1], want)).max() < t2:
                    f("refracted direction", f"{what}: refracted along {r[1]}, Snell's law gives {want}")
    return len(cf), count, f.bad


JOBS = {"functions": job_functions, "surface": job_surface, "photons": job_photons}


def dispatch(j):
    return JOBS[j[0]](j[1])


def main(chk):
    from mc import kernel
    kernel.ensure()
    chk.assumptions += ["angles closer than 4e-15 rad (1e-13 in turned nodes, 1e-11 on curved faces) (and indices, unless equal, closer than 4e-16) are not told apart: reflectivity is compared with the range over them",
                        "grazing photons on curved or turned faces: cosine at least 1e-4; on flat faces at rest 1e-8"]
    jobs = []
    for n1, n2 in itertools.product(INDICES, repeat=2):
        jobs += [("functions", (n1, n2))]
        if base.THOROUGH or (n1, n2) in (((1.0, 1.5), (1.5, 1.0), (1.33, 1.33), (1.0, 1.0 + 1e-12), (4.0, 1.9))):
            jobs.append(("surface", (n1, n2)))
    pairs = [(1.0, 1.5), (1.5, 1.0), (1.33, 1.33), (1.0, 1.0), (1.9, 4.0), (4.0, 1.33), (1.0, 1.0 + 1e-12), (1.0003, 1.0)]
    if base.THOROUGH:
        pairs = list(itertools.product(INDICES, repeat=2))
    for (n1, n2), shape, place in itertools.product(pairs, SHAPES, PLACES):
        jobs.append(("photons", ("engine", shape, n1, n2, place, False)))
        jobs.append(("photons", ("tracer", shape, n1, n2, place, False)))
        if n1 == 1.0:
            jobs.append(("photons", ("engine", shape, n1, n2, place, True)))
            jobs.append(("photons", ("tracer", shape, n1, n2, place, True)))
    jobs.sort(key=lambda j: j[0] != "surface")
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"job": j, "trace": r[1]})
            continue
        s, c, bad = r
        chk.add("states", s)
        chk.add("transitions", c)
        chk.add("traces_validated_against_impl", c)
        chk.add(j[0] + "_cases", s)
        for b in bad:
            chk.violation(*b)
    chk.sample({"angles from 1.5 to 1.0": angles(1.5, 1.0)[::9]})
    chk.sample({"index pairs": pairs})
