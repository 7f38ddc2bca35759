"""C22: the live view. The real renderer sends its commands to a stand-in for the browser window, which keeps the tree of
objects a browser would display; every sequence, up to a depth, of showing scenes, rays, paths and photon histories of every
shape, removing and clearing is performed, and after each step the displayed objects are compared with what was given."""
import contextlib
import io
import itertools
import math
import struct
import warnings

import numpy as np

from mc import base


class Window:
    """What a browser displays: a tree of objects and transformations."""

    def __init__(self, *a, **kw):
        self.web_url = "none"
        self.zmq_url = "none"
        self.problems = []
        self.reset()

    def reset(self):
        self.objects = {}
        self.matrices = {}
        self.scene_replacing = False

    def open(self):
        return self

    def send(self, command):
        data = command.lower()
        path = data["path"]
        key = tuple(x for x in path.split("/") if x)
        t = data["type"]
        if t == "set_object":
            if key in self.objects and not self.scene_replacing:
                self.problems.append(f"the identity {path} is given to a new object while another is displayed under it")
            self.objects[key] = shape(data["object"])
        elif t == "set_transform":
            self.matrices[key] = np.array(data["matrix"], float).reshape(4, 4).T
        elif t == "delete":
            n = len(key)
            for d in (self.objects, self.matrices):
                for k in [k for k in d if k[:n] == key]:
                    del d[k]

    def placed(self):
        """Each displayed object with the transformation the tree gives it."""
        out = []
        for key, s in self.objects.items():
            M = np.eye(4)
            for n in range(1, len(key) + 1):
                if key[:n] in self.matrices:
                    M = M @ self.matrices[key[:n]]
            out.append((s, M))
        return out


def floats(ext):
    return np.array(struct.unpack("<%df" % (len(ext.data) // 4), ext.data))


def shape(lowered):
    gs = {x["uuid"]: x for x in lowered["geometries"]}
    ms = {x["uuid"]: x for x in lowered.get("materials", [])}
    o = lowered["object"]
    geo = gs[o["geometry"]]
    colour = ms[o["material"]].get("color") if "material" in o else None
    t = geo["type"]
    if t == "BufferGeometry":
        p = floats(geo["data"]["attributes"]["position"]["array"]).reshape(-1, 3)
        return ("line", p, colour)
    if t == "SphereGeometry":
        return ("sphere", geo["radius"], colour)
    if t == "CylinderGeometry":
        return ("cylinder", (geo["radiusTop"], geo["radiusBottom"], geo["height"]), colour)
    if t in ("_meshfile_geometry", "_meshfile") and geo["format"] == "stl":
        b = bytes(geo["data"].data)
        n = struct.unpack("<I", b[80:84])[0]
        rec = np.frombuffer(b[84:84 + 50 * n], dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]))
        return ("mesh", np.array(rec["v"], float), colour)
    return ("unknown", t, colour)


# ---- what was given -------------------------------------------------------------------------

def rounded(p):
    return tuple(tuple(round(float(x), 3) + 0.0 for x in q) for q in np.atleast_2d(np.asarray(p, float)))


def line(a, b, colour):
    return ("line", rounded([a, b]), colour)


def bauble(at, r, colour):
    return ("bauble", rounded([at]), round(r, 5), colour)


def displayed(win):
    out = []
    for s, M in win.placed():
        if s[0] == "line":
            p = (M[:3, :3] @ s[1].T).T + M[:3, 3]
            out.append(("line", rounded(p), s[2]))
        elif s[0] == "sphere" and s[1] < 0.1:
            out.append(("bauble", rounded([M[:3, 3]]), round(s[1], 5), s[2]))
        else:
            out.append(("node", s[0], rounded([M[:3, 3]])))
    return sorted(out, key=repr)


def colour(nm):
    from pvtrace.light.utils import wavelength_to_rgb
    r, g, b = wavelength_to_rgb(nm)
    return (r << 16) + (g << 8) + b


def words(n):
    """Event words of photon histories with n or fewer events after the generation."""
    step = [("T",), ("R",), ("A", "E"), ("S",)]
    end = [("X",), ("A", "N"), ("A", "C"), ("K",), ("A", "K")]
    out = []

    def rec(w):
        for e in end:
            if len(w) + len(e) <= n:
                out.append(w + e)
        for s in step:
            if len(w) + len(s) < n:
                rec(w + s)
    rec(())
    return out


EV = dict(G="GENERATE", T="TRANSMIT", R="REFLECT", A="ABSORB", E="EMIT", S="SCATTER", X="EXIT", N="NONRADIATIVE", C="REACT", K="KILL")
SHORT, RADIUS = 1.0, 0.01


def history(word, salt, same=True):
    """A photon which zigzags; an absorbed one stays where it is (the very ray object is repeated, as the tracer does)."""
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    rng = [(1.0, 0.5, -2.0), (0.3, -1.0, 0.5), (-2.0, 0.25, 0.125), (0.0, 3.0, 0.0)]
    pos = np.array([0.1 * salt, 0.2, -0.3])
    nm = 450.0
    d = np.array(rng[salt % 4])
    d = d / np.linalg.norm(d)
    out = [(Ray(tuple(pos), tuple(d), nm), Event.GENERATE)]
    stay = False
    for i, e in enumerate(word):
        if stay:
            ray = out[-1][0]
            if e == "E":
                nm += 40
        else:
            pos = pos + d * (0.5 + 0.75 * ((i + salt) % 3))
        if e in "RSTE":
            d = np.array(rng[(i + salt + 1) % 4])
            d = d / np.linalg.norm(d)
        if not (stay and e in "NCK"):
            ray = Ray(tuple(float(x) for x in pos), tuple(float(x) for x in d), nm, travelled=float(i), source="s")
        out.append((ray, Event[EV[e]]))
        stay = e == "A"
    return tuple(out)


def drawn(hist, baubles=True, world_segment="short", short_length=SHORT, bauble_radius=RADIUS):
    """(required, optional) parts of a displayed history."""
    from pvtrace.light.event import Event
    need, may = [], []
    n = len(hist)
    leaves = hist[-1][1] == Event.EXIT
    for i in range(n - 1):
        (r, e), (q, f) = hist[i], hist[i + 1]
        last = i == n - 2 and leaves
        c = colour(r.wavelength)
        if last and world_segment == "exclude":
            if baubles and e == Event.TRANSMIT and n > 2:
                may.append(bauble(r.position, bauble_radius, c))
            continue
        end = np.array(r.position) + np.array(r.direction) * short_length if last else q.position
        need.append(line(r.position, end, c))
        if baubles and e == Event.TRANSMIT:
            need.append(bauble(r.position, bauble_radius, c))
    return need, may


def compare(got, need, may=()):
    from collections import Counter
    g, w, m = Counter(got), Counter(need), Counter(may)
    missing = w - g
    extra = g - w - m
    if missing:
        return f"{sum(missing.values())} objects are not displayed: {list(missing)[:2]}" + (f"; {sum(extra.values())} which should not be are: {list(extra)[:2]}" if extra else "")
    if extra:
        return f"{sum(extra.values())} objects are displayed which should not be: {list(extra)[:2]}"
    return None


def new(m=10):
    import meshcat.visualizer as mv
    mv.ViewerWindow = Window
    from pvtrace.scene.renderer import MeshcatRenderer
    r = MeshcatRenderer(zmq_url="none", max_histories=m)
    w = r.vis.window
    assert isinstance(w, Window)
    return r, w


def flat(ids):
    if ids is None:
        return []
    if isinstance(ids, str):
        return [ids]
    return [y for x in ids for y in flat(x)]


# ---- single histories ------------------------------------------------------------------------

def shapes_job(ws):
    from pvtrace.common.errors import AppError
    out, n = [], 0
    r, w = new(10 ** 6)
    for word in ws:
        for baubles, seg, ln in itertools.product((True, False), ("short", "exclude"), (1.0, 0.25)):
            h = history(word, len(word) % 5)
            w.reset()
            n += 1
            try:
                ids = r.add_history(list(h) if n % 2 else h, baubles=baubles, world_segment=seg, short_length=ln, bauble_radius=0.02)
            except Exception as e:
                out.append((f"showing a history fails: {type(e).__name__}", f"{word} baubles={baubles} {seg}: {e!r}"))
                continue
            need, may = drawn(h, baubles, seg, ln, 0.02)
            p = compare(displayed(w), need, may)
            if p:
                out.append((f"history ending in {EV[word[-1]]}, {seg}", f"the history {''.join(word)} (baubles={baubles}, world_segment={seg}, length {ln}): {p}"))
            for i in flat(ids):
                r.remove_object(i)
            left = displayed(w)
            if left:
                out.append(("removing a history leaves objects", f"{''.join(word)} (baubles={baubles}, {seg}): {left[:2]} is displayed after its identifiers were removed"))
            if w.problems:
                out.append(("identity", w.problems.pop()))
            if seg == "short":  # not a history: refused, and nothing shown
                w.reset()
                for bad in (h[:1], ):
                    try:
                        r.add_history(bad, baubles=baubles, world_segment=seg)
                        out.append(("a history of one point is shown", "a history with one event is accepted"))
                    except AppError:
                        pass
                try:
                    r.add_history(h, world_segment="long")
                    out.append(("bad option", "an unknown world_segment is accepted"))
                except ValueError:
                    pass
                if w.objects:
                    out.append(("refused history", "a refused history is displayed"))
    return out, n


# ---- sequences -------------------------------------------------------------------------------

def fixtures():
    from pvtrace.light.ray import Ray
    H = [history(tuple(x), i) for i, x in enumerate(("TTX", "TAN", "RX", "X", "TSTX"))]
    rays = [Ray((0.0, 0.0, 1.0 * i), (0.0, 0.0, 1.0), 450.0 + 60 * i) for i in range(3)]
    return H, rays


def scenes():
    from pvtrace import Box, Cylinder, Material, Node, Scene, Sphere
    a = Node("world", geometry=Sphere(10.0, material=Material(1.0)))
    b = Node("b", parent=a, geometry=Box((1, 2, 3), material=Material(1.5)))
    b.location = (1.0, 2.0, 3.0)
    c = Node("c", parent=b, geometry=Cylinder(1.0, 0.25, material=Material(1.5)))
    c.location = (0.0, 0.5, 0.0)
    A = Scene(a)
    a2 = Node("world", geometry=Sphere(10.0, material=Material(1.0)))
    d = Node("d", parent=a2, geometry=Sphere(1.5, material=Material(1.5)))
    d.location = (-1.0, 0.0, 0.0)
    return [(A, [("node", "mesh", rounded([(1, 2, 3)])), ("node", "cylinder", rounded([(1, 2.5, 3)]))]), (Scene(a2), [("node", "sphere", rounded([(-1, 0, 0)]))])]


class Model:
    def __init__(self, m):
        self.m = m
        self.nodes = {}
        self.lines = []    # (identifier, parts)
        self.hist = []     # (identifiers, need, may)

    def need(self):
        out = [p for ps in self.nodes.values() for p in ps]
        out += [p for _, ps in self.lines for p in ps]
        for _, need, _ in self.hist[-self.m:]:
            out += need
        return out

    def may(self):
        return [p for _, _, may in self.hist[-self.m:] for p in may]


OPS = ["scene 0", "scene 1", "ray", "segment", "ray path", "path", "ints", "H0", "H1", "H2", "H3x", "H4x", "H0n", "drop line", "drop oldest", "drop newest", "drop twice", "clear", "refused"]
SMALL = ["scene 0", "ray", "H0", "H1", "H4x", "drop oldest", "drop newest", "clear"]
HONLY = ["H0", "H1", "H3x", "drop oldest"]
_fix = None


def do(r, w, M, op, gone):
    from pvtrace.common.errors import AppError
    H, rays, S = _fix
    if op.startswith("scene"):
        k = int(op[-1])
        w.scene_replacing = True
        r.render(S[k][0])
        w.scene_replacing = False
        M.nodes[k] = list(S[k][1])
    elif op == "ray":
        ray = rays[len(M.lines) % 3]
        i = r.add_ray(ray, 2.5)
        M.lines.append((flat(i), [line(ray.position, np.array(ray.position) + 2.5 * np.array(ray.direction), colour(ray.wavelength))]))
    elif op == "segment":
        i = r.add_line_segment((0.0, 1.0, 2.0), (3.0, 4.0, 5.5), colour=0x123456)
        M.lines.append((flat(i), [line((0, 1, 2), (3, 4, 5.5), 0x123456)]))
    elif op == "ints":
        i = r.add_line_segment((0, 1, 2), (3, 4, 5))
        M.lines.append((flat(i), [line((0, 1, 2), (3, 4, 5), 0xFFFFFF)]))
    elif op == "path":
        v = np.array([[0.0, 1.0, 2.0, 3.0], [0.5, 0.5, 0.5, 0.25], [7.0, 6.0, 5.0, 4.0]])
        i = r.add_path(v, colour=0x00FF00)
        M.lines.append((flat(i), [("line", rounded(v.T), 0x00FF00)]))
    elif op == "ray path":
        i = r.add_ray_path(rays)
        M.lines.append((flat(i), [line(a.position, b.position, colour(a.wavelength)) for a, b in zip(rays[:-1], rays[1:])]))
    elif op[0] == "H":
        kw = dict(x=dict(world_segment="exclude"), n=dict(baubles=False)).get(op[2:], {})
        h = H[int(op[1])]
        ids = r.add_history(h, **kw)
        need, may = drawn(h, **kw)
        if need or may:
            M.hist.append([flat(ids), need, may])
            if len(set(flat(ids))) != len(flat(ids)):
                return f"the identifiers {ids} of a history repeat"
    elif op == "drop line":
        if M.lines:
            for i in M.lines.pop(0)[0]:
                r.remove_object(i)
    elif op in ("drop oldest", "drop newest"):
        shown = [h for h in M.hist[-M.m:] if h[0]]
        if shown:
            h = shown[0 if op == "drop oldest" else -1]
            for i in h[0]:
                r.remove_object(i)
            gone.extend(h[0])
            h[0], h[1], h[2] = [], [], []
    elif op == "drop twice":
        for i in gone:
            r.remove_object(i)
    elif op == "clear":
        r.remove(S[0][0])
        M.nodes.clear()
        M.lines.clear()
        for h in M.hist:
            h[0], h[1], h[2] = [], [], []
    elif op == "refused":
        for bad in (lambda: r.add_history(H[0][:1]), lambda: r.add_ray_path(rays[:1])):
            try:
                bad()
                return "a path of one point is accepted"
            except AppError:
                pass
    return None


def seq_job(job):
    """All sequences over `menu` of length `depth` beginning with `first`, for at most m histories."""
    global _fix
    menu, depth, first, m = job
    if _fix is None:
        _fix = (*fixtures(), scenes())
    out, n, steps = [], 0, 0
    for rest in itertools.product(menu, repeat=depth - len(first)):
        s = first + rest
        r, w = new(m)
        M = Model(m)
        gone = []
        n += 1
        for k, op in enumerate(s):
            steps += 1
            try:
                p = do(r, w, M, op, gone)
            except Exception as e:
                p = f"{op} fails: {e!r}"
            p = p or (w.problems and w.problems[0]) or compare(displayed(w), M.need(), M.may())
            if p:
                out.append((f"{op}", f"after {list(s[:k + 1])} with max_histories={m}: {p}"))
                break
        if len(out) > 8:
            break
    return out, n, steps


# ---- placement -------------------------------------------------------------------------------

def rot(angle, axis):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    M = np.eye(4)
    M[:3, :3] = np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K
    return M


def place_job(job):
    """Scenes of a chain of three nodes: every geometry under every pair of poses."""
    from pvtrace import Box, Cylinder, Material, Mesh, Node, Scene, Sphere
    import trimesh
    kinds, poses, names, wire = job
    mat = Material(1.5)
    geos = dict(box=lambda: Box((1.0, 2.0, 3.0), material=mat), sphere=lambda: Sphere(0.75, material=mat), cylinder=lambda: Cylinder(3.0, 0.5, material=mat),
                mesh=lambda: Mesh(trimesh.creation.icosahedron(), material=mat), none=lambda: None)
    world = Node("world", geometry=Sphere(100.0, material=mat))
    parent, M = world, np.eye(4)
    want = []
    for kd, pose, name in zip(kinds, poses, names):
        node = Node(name, parent=parent, geometry=geos[kd]())
        ang, axis, loc = pose
        node.location = loc
        if ang:
            node.rotate(ang, axis)
        # told, not recomputed: rotation about the location, in the parent's frame
        L = rot(ang, axis)
        L[:3, 3] = loc
        M = M @ L
        if kd != "none":
            want.append((kd, M.copy()))
        parent = node
    from pvtrace.scene.renderer import MeshcatRenderer
    r, w = new(5)
    r.wireframe = wire
    r.render(Scene(world))
    placed = w.placed()
    if w.problems:
        return [("two nodes are displayed as one", w.problems[0])]
    if len(placed) != len(want):
        return [("number of nodes", f"{len(placed)} objects are displayed for {len(want)} nodes with geometry")]
    out = []
    free = list(placed)
    for kd, T in want:
        hit = None
        for s, P in free:
            if matches(kd, T, s, P):
                hit = (s, P)
                break
        if hit is None:
            out.append((f"{kd} misplaced", f"a {kd} of the nodes {names} ({kinds}) with poses {poses} is not displayed at its place"))
        else:
            free = [f for f in free if f[0] is not hit[0]]
    r.remove(None)
    if w.objects:
        out.append(("clear leaves nodes", f"nodes {list(w.objects)} remain displayed after clearing"))
    return out


def apply(M, p):
    return (M[:3, :3] @ np.asarray(p, float).T).T + M[:3, 3]


def matches(kd, T, s, P):
    tol = 2e-5
    if kd == "sphere":
        return s[0] == "sphere" and abs(s[1] - 0.75) < 1e-9 and np.allclose(P[:3, 3], T[:3, 3], atol=tol) and np.allclose(P[:3, :3] @ P[:3, :3].T, np.eye(3), atol=1e-9)
    if kd == "cylinder":
        if s[0] != "cylinder":
            return False
        top, bottom, h = s[1]
        # three.js: axis along y
        a = np.arange(0, 6.3, 0.4)
        pts = np.concatenate([np.stack([top * np.cos(a), np.full_like(a, h / 2), top * np.sin(a)], 1), np.stack([bottom * np.cos(a), np.full_like(a, -h / 2), bottom * np.sin(a)], 1)])
        q = apply(np.linalg.inv(T), apply(P, pts))
        return bool(np.allclose(np.hypot(q[:, 0], q[:, 1]), 0.5, atol=tol) and np.allclose(np.abs(q[:, 2]), 1.5, atol=tol) and q[:, 2].min() < 0 < q[:, 2].max())
    if s[0] != "mesh":
        return False
    if kd == "box":
        V = np.array(list(itertools.product((-0.5, 0.5), (-1, 1), (-1.5, 1.5))))
    else:
        import trimesh
        V = trimesh.creation.icosahedron().vertices
    q = apply(np.linalg.inv(T), apply(P, s[1].reshape(-1, 3)))
    d = np.linalg.norm(q[:, None, :] - V[None], axis=2)
    return bool((d.min(1) < tol).all() and (d.min(0) < tol).all())


POSES = [(0.0, (0, 0, 1), (0.0, 0.0, 0.0)), (0.0, (0, 0, 1), (1.0, -2.0, 3.0)), (math.pi / 3, (1, 0, 0), (0.5, 0.0, 0.0)), (math.pi / 2, (0, 1, 0), (0.0, 0.0, -4.0)), (1.0, (1, 1, 1), (-1.0, 0.25, 2.0))]


def colour_job(_):
    """Colours of every nanometre from 200 to 1200."""
    from pvtrace.light.utils import wavelength_to_rgb, wavelength_to_hex_int
    out = []
    for k in range(200 * 4, 1200 * 4):
        nm = k / 4
        rgb = wavelength_to_rgb(nm)
        if not all(isinstance(v, int) and 0 <= v <= 255 for v in rgb):
            out.append(("colour", f"the colour of {nm} nm is {rgb}"))
        if wavelength_to_hex_int(nm) != (rgb[0] << 16) + (rgb[1] << 8) + rgb[2]:
            out.append(("colour", f"the colour of {nm} nm is drawn as {wavelength_to_hex_int(nm):#x}, not {rgb}"))
    return out, 4000


def work(job):
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(shapes=shapes_job, seq=seq_job, place=lambda js: [place_job(j) for j in js], colour=colour_job)[job[0]](job[1])


def main(c):
    warnings.simplefilter("ignore")
    import pvtrace  # noqa
    T = base.THOROUGH
    ws = words(8 if T else 7)
    jobs = [("shapes", ws[i::24]) for i in range(24)] + [("colour", None)]
    for m in (1, 2, 3):
        for a in OPS:
            for b in OPS:
                jobs.append(("seq", (OPS, 4 if T else 3, (a, b), m)))
        for a in SMALL:
            for b in SMALL:
                jobs.append(("seq", (SMALL, 6 if T else 5, (a, b), m)))
        for a in HONLY:
            jobs.append(("seq", (HONLY, 8 if T else 6, (a,), m)))
    kinds = ["box", "sphere", "cylinder", "mesh", "none"]
    pj = [((a, b), (p, q), n, False) for a in kinds for b in kinds for p in POSES for q in POSES for n in (("b", "c"), ("b/x", "b"), ("x//y", "a | b"))]
    if T:
        pj += [((a, b, d), (p, q, r), ("b", "c", "d"), True) for a in kinds for b in kinds for d in kinds for p in POSES for q in POSES for r in POSES]
    jobs += [("place", pj[i:i + 50]) for i in range(0, len(pj), 50)]
    c.cov["history_shapes"] = len(ws)
    c.cov["placements"] = len(pj)
    c.sample(dict(history="".join(ws[len(ws) // 2])))
    for j, r in zip(jobs, base.pmap(work, jobs)):
        if base.is_exc(r):
            c.violation(f"{j[0]}: exception", r[1][-600:], dict(job=j))
            continue
        if j[0] == "place":
            probs = [x for y in r for x in y]
            n = steps = len(j[1])
        elif j[0] == "seq":
            probs, n, steps = r
            c.add("sequences", n)
        else:
            probs, n = r
            steps = n
        c.cov["states"] += n
        c.cov["transitions"] += steps
        c.cov["traces_validated_against_impl"] += n
        for k, p in probs:
            c.violation(f"{j[0]}: {k}", p, dict(job=j if j[0] == "seq" else None, what=p))
    c.sample(dict(menu=OPS, depth=3, max_histories=[1, 2, 3]))
    c.sample(dict(menu=SMALL, depth=5))
    c.assumptions += ["the browser displays the tree of objects described by the commands (object, transformation, delete of a subtree)", "the paths of nodes in a scene differ"]
