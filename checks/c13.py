"""C13: every sequence of node operations up to a depth, on every start tree, against a matrix model.

The model keeps (parent, 4x4 pose) per node, computed with Rodrigues rotations of its own. After every
operation of a sequence every ordered pair of nodes is converted by the code under test (so anything it
remembers is in place when the next operation comes), and in the state reached every conversion (points,
vectors, photons, intersections, lights, the engine's tables) is compared with the model.
"""
import itertools
import math

import numpy as np

from mc import base

NAMES = ("w", "a", "b", "c")
TREES = {"chain": (None, 0, 1, 2), "star": (None, 0, 0, 0), "fork": (None, 0, 1, 1), "mixed": (None, 0, 1, 0)}
START = {"rest": [(0, 0, 0)] * 4, "placed": [(0, 0, 0), (1.0, 2.0, -1.0), (0.5, 0.0, 3.0), (-2, 1, 0)]}
RADII = (40.0, 0.9, 0.6, 0.35)


def rodrigues(angle, axis):
    k = np.array(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * (K @ K)


def pose_of(R, t):
    m = np.eye(4)
    m[:3, :3] = R
    m[:3, 3] = t
    return m


P1 = pose_of(rodrigues(0.7, (1, 2, -1)), (1.0, -2.0, 0.5))
PINT = np.array([[0, -1, 0, 3], [1, 0, 0, 0], [0, 0, 1, -2], [0, 0, 0, 1]])
PSCALE = np.diag([2.0, 2.0, 2.0, 1.0])
PSHEAR = np.array([[1.0, 0.5, 0, 1.0], [0, 1, 0, 0], [0, 0.25, 3.0, 0], [0, 0, 0, 1]])
ARRAYS = {}


class Model:
    def __init__(self, parents, locs):
        self.par = list(parents)
        self.pose = [pose_of(np.eye(3), l) for l in locs]
        self.rigid = True
        # whether the direction faced is fixed by the operations alone
        self.skip = False

    def to_root(self, i):
        m = np.eye(4)
        while self.par[i] is not None:
            m = self.pose[i] @ m
            i = self.par[i]
        return m, i

    def transform(self, i, j):
        a, ra = self.to_root(i)
        b, rb = self.to_root(j)
        if ra != rb:
            return None
        return np.linalg.inv(b) @ a

    def below(self, i, j):
        """j is i or below it"""
        while j is not None:
            if j == i:
                return True
            j = self.par[j]
        return False


# ---- operations: (name, apply to real nodes, apply to model); a model returning False expects a refusal ----

def mk_translate(i, v, conv):
    def real(N, Node):
        arg = conv(v)
        N[i].translate(arg)
        if isinstance(arg, np.ndarray) or isinstance(arg, list):
            arg[0] = 77  # the caller goes on using its array

    def model(M):
        M.pose[i] = pose_of(np.eye(3), v) @ M.pose[i]
    return f"{NAMES[i]}.translate({conv.__name__}{v})", real, model


def mk_locate(i, v, conv):
    def real(N, Node):
        arg = conv(v)
        N[i].location = arg
        if isinstance(arg, (np.ndarray, list)):
            arg[1] = 99

    def model(M):
        M.pose[i] = M.pose[i].copy()
        M.pose[i][:3, 3] = v
    return f"{NAMES[i]}.location={conv.__name__}{v}", real, model


def mk_rotate(i, ang, axis):
    def real(N, Node):
        N[i].rotate(ang, axis)

    def model(M):
        M.pose[i] = pose_of(rodrigues(ang, axis) @ M.pose[i][:3, :3], M.pose[i][:3, 3])
    return f"{NAMES[i]}.rotate({ang:.2f},{axis})", real, model


def mk_look(i, v):
    def real(N, Node):
        N[i].look_at(v)

    def model(M):
        M.look = (i, v)
        if not any(v):
            return False
        a = M.pose[i][:3, 2]
        if abs(np.linalg.norm(a) - 1) > 1e-9:
            M.skip = True  # the face of a scaled node: any length
        b = np.array(v, float) / np.linalg.norm(v)
        return ("look", i, b)
    return f"{NAMES[i]}.look_at({v})", real, model


def mk_pose(i, P, name):
    def real(N, Node):
        arg = P.copy()
        N[i].pose = arg
        arg[0, 3] = 55

    def model(M):
        M.pose[i] = np.array(P, float)
        if np.abs(M.pose[i][:3, :3] @ M.pose[i][:3, :3].T - np.eye(3)).max() > 1e-9:
            M.rigid = False
    return f"{NAMES[i]}.pose={name}", real, model


def mk_parent(i, j):
    def real(N, Node):
        N[i].parent = None if j is None else N[j]

    def model(M):
        if j is not None and M.below(i, j):
            return False
        M.par[i] = j
    return f"{NAMES[i]}.parent={None if j is None else NAMES[j]}", real, model


def mk_copy(i, j, what):
    def real(N, Node):
        setattr(N[i], what, getattr(N[j], what))

    def model(M):
        if what == "pose":
            M.pose[i] = M.pose[j].copy()
        else:
            M.pose[i] = M.pose[i].copy()
            M.pose[i][:3, 3] = M.pose[j][:3, 3]
    return f"{NAMES[i]}.{what}={NAMES[j]}.{what}", real, model


def mk_frompose(i, P, name):
    """Replace node i by a node created from a pose."""
    def real(N, Node):
        n = Node.from_pose(P.copy())
        n.name = NAMES[i]
        old = N[i]
        n.geometry, n.light, n.parent = old.geometry, old.light, old.parent
        for ch in tuple(old.children):
            ch.parent = n
        old.parent = None
        N[i] = n

    def model(M):
        M.pose[i] = np.array(P, float)
    return f"{NAMES[i]}=from_pose({name})", real, model


def tup(v):
    return tuple(v)


def lst(v):
    return list(v)


def arr(v):
    return np.array(v)


def alphabet(level):
    ops = []
    for i in (1, 2):
        ops += [mk_translate(i, (1.0, -0.5, 2.0), arr), mk_locate(i, (0.25, 3.0, -1.0), arr),
                mk_rotate(i, 0.9, (1.0, 1.0, 0.0)), mk_look(i, (0.0, -1.0, -2.0))]
    ops += [mk_translate(3, (1, 0, -1), tup), mk_locate(3, (2, 1, 0), lst), mk_rotate(3, math.pi / 2, (0, 0, 1)), mk_look(3, (0, 0, -3)),
            mk_pose(1, P1, "P1"), mk_pose(2, PINT, "PINT"), mk_parent(3, 1), mk_parent(2, 0), mk_parent(1, 3), mk_copy(2, 1, "location"),
            mk_rotate(0, 0.4, (0.0, 1.0, 0.2)), mk_pose(3, PSHEAR, "PSHEAR")]
    ops[2:2] = [mk_locate(1, (1.00002, 2.0, -1.0), tup), mk_translate(2, (0.0, 1e-6, 0.0), tup)]
    if level:
        ops += [mk_translate(0, (0.0, 1.0, 0.0), lst), mk_locate(0, (1.0, 1.0, 1.0), tup), mk_look(1, (0, 0, 0)), mk_look(2, (0, 0, 2)),
                mk_look(3, (1e-3, 0.0, -1.0)), mk_pose(2, PSCALE, "PSCALE"), mk_copy(3, 2, "pose"), mk_copy(1, 2, "location"),
                mk_parent(2, 3), mk_parent(3, 0), mk_parent(3, None), mk_parent(1, None), mk_parent(1, 0), mk_frompose(2, P1, "P1"),
                mk_frompose(1, PINT, "PINT"), mk_rotate(2, -2.1, (0, 1, 0)), mk_rotate(1, math.pi, (1, 0, 0)), mk_translate(3, (0, 0, 4), arr)]
    return ops


POINTS = ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5), (3, 0, -7))
VECTORS = ((0.0, 0.0, 1.0), (0.6, -0.8, 0.0), (1, 2, 3))


def start(tree, locs, ints=False):
    from pvtrace import Node, Sphere, Material, Light
    par = TREES[tree]
    nodes = []
    for i, nm in enumerate(NAMES):
        loc = START[locs][i]
        if locs == "rest":
            loc = None if i % 2 else [0, 0, 0]
        elif i == 3:
            loc = np.array(loc)  # integers
        n = Node(name=nm, parent=None if par[i] is None else nodes[par[i]], location=loc,
                 geometry=Sphere(RADII[i], material=Material(1.5)), light=Light(name=nm) if i in (1, 3) else None)
        nodes.append(n)
    return nodes, Model(par, START[locs])


def close(a, b, tol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max())))


def touch(N):
    for x, y in itertools.product(N, N):
        try:
            x.transformation_to(y)
            x.point_to_node((1.0, 2.0, 3.0), y)
            x.vector_to_node((0.0, 0.0, 1.0), y)
        except Exception:  # noqa  (nodes of separate trees)
            pass


def check_state(N, M, engine):
    from pvtrace.light.ray import Ray
    from pvtrace.geometry.intersection import Intersection
    from pvtrace import Scene
    for i, n in enumerate(N):
        if not close(n.pose, M.pose[i]):
            return "pose", f"{n.name} has pose {np.array(n.pose).tolist()}, its operations give {M.pose[i].tolist()}"
        if not close(n.location, M.pose[i][:3, 3]):
            return "location", f"{n.name} reports location {list(n.location)}, its operations give {M.pose[i][:3, 3].tolist()}"
        if (None if n.parent is None else n.parent.name) != (None if M.par[i] is None else NAMES[M.par[i]]):
            return "parent", f"{n.name} has parent {n.parent}"
    T = {}
    for i, j in itertools.product(range(4), repeat=2):
        T[i, j] = M.transform(i, j)
    for i, j in itertools.product(range(4), repeat=2):
        x, y, t = N[i], N[j], T[i, j]
        if t is None:
            for f in (lambda: x.transformation_to(y), lambda: x.point_to_node(POINTS[0], y), lambda: x.vector_to_node(VECTORS[0], y)):
                try:
                    f()
                except Exception:  # noqa
                    continue
                return "unrelated", f"{x.name} to {y.name}: no path between them, yet a conversion is given"
            continue
        if not close(x.transformation_to(y), t):
            return "matrix", f"{x.name} to {y.name} is {np.array(x.transformation_to(y)).tolist()}, product of the poses is {t.tolist()}"
        got = []
        for p in POINTS:
            q = x.point_to_node(p, y)
            got.append(q)
            if not close(q, t[:3, :3] @ np.array(p, float) + t[:3, 3]):
                return "point", f"{p} in {x.name} is {q} in {y.name}, product of the poses gives {(t @ np.append(p, 1.0))[:3].tolist()}"
            if not close(y.point_to_node(q, x), p, 1e-8):
                return "round trip", f"{p} {x.name}->{y.name}->{x.name} gives {y.point_to_node(q, x)}"
            for k in (range(4) if p is POINTS[1] else ()):
                if T[j, k] is not None and not close(y.point_to_node(q, N[k]), x.point_to_node(p, N[k]), 1e-8):
                    return "route", f"{p} from {x.name} to {NAMES[k]} depends on the route via {y.name}"
        vec = []
        for v in VECTORS:
            u = x.vector_to_node(v, y)
            vec.append(u)
            if not close(u, t[:3, :3] @ np.array(v, float)):
                return "vector", f"{v} in {x.name} is {u} in {y.name}, product of the poses gives {(t[:3, :3] @ np.array(v, float)).tolist()}"
        if M.rigid:
            for a, b in itertools.combinations(range(3), 2):
                if abs(np.linalg.norm(np.subtract(got[a], got[b])) - np.linalg.norm(np.subtract(POINTS[a], POINTS[b]))) > 1e-8:
                    return "distance", f"{x.name} to {y.name} changes distances"
                if abs(np.dot(vec[a], vec[b]) - np.dot(VECTORS[a], VECTORS[b])) > 1e-8:
                    return "angle", f"{x.name} to {y.name} changes angles"
        r = Ray(POINTS[1], VECTORS[1], 512.5, travelled=3.25, duration=2e-9, source="s")
        q = r.representation(x, y)
        if not close(q.position, got[1]) or not close(q.direction, vec[1]) or (q.wavelength, q.travelled, q.duration, q.source) != (
                512.5, 3.25, 2e-9, "s"):
            return "photon", f"photon from {x.name} to {y.name} becomes {q!r}, travelled {q.travelled}, {q.duration}, {q.source}"
        h = Intersection(coordsys=x, point=POINTS[1], hit=N[3], distance=1.5).to(y)
        if h.coordsys is not y or h.hit is not N[3] or h.distance != 1.5 or not close(h.point, got[1]):
            return "intersection", f"intersection from {x.name} to {y.name} becomes {h}"
        pt = x.path_to(y)
        if pt[0] is not x or pt[-1] is not y:
            return "path", f"path from {x.name} to {y.name} is {pt}"
    # the scene: what is hit, where, and where lights shine from
    sub = [i for i in range(4) if T[i, 0] is not None]
    sc = Scene(N[0])
    lit = [i for i in (1, 3) if i in sub]
    order = [n.name for n in sc.light_nodes]
    if sorted(order) != sorted(NAMES[i] for i in lit):
        return "lights", f"scene has lights {order}"
    if lit:
        for nm, ray in zip(order + order, sc.emit(2 * len(lit))):
            t = T[NAMES.index(nm), 0]
            if not close(ray.position, t[:3, 3]) or not close(ray.direction, t[:3, 2]):
                return "emission", f"light {nm} emits from {ray.position} along {ray.direction}, it is placed at {t[:3, 3]} facing {t[:3, 2]}"
    if not M.rigid:
        return None
    for target in sub[1:]:
        for o in ((0.0, 0.0, 0.0), (-25.0, 3.0, 11.0)):
            o = np.array(o)
            d = T[target, 0][:3, 3] + np.array((0.011, -0.017, 0.005)) - o
            if np.linalg.norm(d) < 1e-6:
                continue
            d = d / np.linalg.norm(d)
            want = []
            for i in sub:
                c = T[i, 0][:3, 3]
                b = np.dot(o - c, d)
                disc = b * b - (np.dot(o - c, o - c) - RADII[i] ** 2)
                if abs(disc) < 1e-4:
                    want = None
                    break
                if disc > 0:
                    want += [(s, i) for s in (-b - math.sqrt(disc), -b + math.sqrt(disc)) if s > 1e-6]
            if want is None or any(abs(s1 - s2) < 1e-5 for (s1, _), (s2, _) in itertools.combinations(want, 2)):
                continue
            want.sort()
            got = sc.intersections(tuple(o), tuple(d))
            if [g.hit.name for g in got] != [NAMES[i] for _, i in want]:
                return "hits", f"ray {tuple(o)} {tuple(d)} hits {[g.hit.name for g in got]}, the spheres are at {[NAMES[i] for _, i in want]}"
            for g, (s, i) in zip(got, want):
                if abs(g.distance - s) > 1e-6 or not close(g.point, o + s * d, 1e-6):
                    return "hits", f"{NAMES[i]} is hit at {g.point} after {g.distance}, the sphere is at {o + s * d} after {s}"
    if engine and lit and not any(np.linalg.norm(T[i, 0][:3, 3]) > 30 for i in sub):
        from pvtrace import engine as E
        res = E.simulate(sc, 2 * len(lit), seed=3, workers=1, record_every=1, maxsteps=50)
        hs = histories(res)
        for k, h in enumerate(hs):
            nm = order[k % len(order)]
            t = T[NAMES.index(nm), 0]
            if not close(h[0], t[:3, 3]) or not close(h[1], t[:3, 2]):
                return "engine", f"engine light {nm} emits from {h[0]} along {h[1]}, it is placed at {t[:3, 3]} facing {t[:3, 2]}"
            # the next event: the first surface along the way
            o, d = t[:3, 3], t[:3, 2]
            roots = []
            for i in sub:
                c = T[i, 0][:3, 3]
                b = np.dot(o - c, d)
                disc = b * b - (np.dot(o - c, o - c) - RADII[i] ** 2)
                if disc > 1e-4:
                    roots += [s for s in (-b - math.sqrt(disc), -b + math.sqrt(disc)) if s > 1e-6]
                elif disc > -1e-4:
                    roots = None
                    break
            if roots:
                s = min(roots)
                if not close(h[2], o + s * d, 1e-6):
                    return "engine", f"engine photon of {nm} meets a surface at {h[2]}, the first is at {(o + s * d).tolist()}"
    return None


def histories(res):
    out = []
    for h in res.histories():
        (r0, e0, m0), (r1, e1, m1) = h[0], h[1]
        out.append((r0.position, r0.direction, r1.position))
    return out


def apply(op, N, M, Node):
    name, real, model = op
    want = model(M)
    before = [(np.array(n.pose), n.parent) for n in N]
    try:
        real(N, Node)
    except Exception as e:  # noqa
        if want is False:
            for n, (p, q) in zip(N, before):
                if not close(n.pose, p) or n.parent is not q:
                    return "refused", f"{name} is refused but changes {n.name}"
            return None
        return "exception", f"{name}: {type(e).__name__}: {e}"
    if want is False:
        return "accepted", f"{name} is accepted"
    if want is not None:
        # which way round the face is not determined by look_at: any rigid turn about the location
        _, i, b = want
        R = np.array(N[i].pose)[:3, :3]
        old = M.pose[i][:3, :3]
        f = R[:, 2] / np.linalg.norm(R[:, 2])
        if not close(f, b, 1e-8):
            return "look_at", f"{name}: faces {f.tolist()}"
        turn = R @ np.linalg.inv(old)
        if not close(turn @ turn.T, np.eye(3), 1e-8) or np.linalg.det(turn) < 0:
            return "look_at", f"{name}: is not a rotation"
        M.pose[i] = pose_of(R, M.pose[i][:3, 3])
    return None


def run_seq(tree, locs, ops, seq, engine):
    from pvtrace import Node
    N, M = start(tree, locs)
    touch(N)
    for k, o in enumerate(seq):
        bad = apply(ops[o], N, M, Node)
        if bad:
            return bad
        if k + 1 < len(seq):
            touch(N)
    return check_state(N, M, engine)


def job(a):
    tree, locs, level, first, depth, eng_depth = a
    ops = alphabet(level)
    n, steps, bad, eng = 0, 0, [], 0
    for d in range(depth):
        for rest in itertools.product(range(len(ops)), repeat=d):
            seq = (first,) + rest
            e = len(seq) <= eng_depth
            n += 1
            steps += len(seq)
            eng += e
            try:
                r = run_seq(tree, locs, ops, seq, e)
            except Exception as ex:  # noqa
                import traceback
                r = ("exception", f"{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}")
            if r:
                bad.append((f"{r[0]}", r[1] + f" after {' ; '.join(ops[o][0] for o in seq)} on tree {tree} ({locs})",
                            {"tree": tree, "locations": locs, "operations": [ops[o][0] for o in seq]}))
                if len(bad) >= 3:
                    return n, steps, eng, bad
    return n, steps, eng, bad


def main(chk):
    chk.assumptions += ["a rotation turns a node about its current location, with the axis in the parent's frame (as implemented; its docstring says the node's frame)",
                        "four nodes; points, vectors and photons of a fixed set in each state (a conversion is affine, so its action on the points fixes it)"]
    from mc import kernel
    kernel.ensure()
    quick = not base.THOROUGH
    todo = []
    small, big = alphabet(0), alphabet(1)
    for tree in TREES:
        for locs in START:
            for f in range(len(big)):
                todo.append((tree, locs, 1, f, 2, 2 if quick else 2))
            if quick and (tree, locs) not in (("chain", "placed"), ("fork", "placed"), ("star", "placed")):
                continue
            for f in range(len(small)):
                todo.append((tree, locs, 0, f, 3 if quick else 4, 1))
            if not quick:
                for f in range(len(big)):
                    todo.append((tree, locs, 1, f, 3, 2))
    # nothing done at all
    todo_res = base.pmap(job, todo)
    for a, r in zip(todo, todo_res):
        if base.is_exc(r):
            chk.violation("exception", r[1].strip().splitlines()[-1], {"job": a, "trace": r[1]})
            continue
        n, steps, eng, bad = r
        chk.add("states", n)
        chk.add("transitions", steps)
        chk.add("traces_validated_against_impl", n)
        chk.add("engine_states", eng)
        for b in bad:
            chk.violation(*b)
    chk.sample({"operations": [o[0] for o in big], "trees": list(TREES), "depth": 3 if quick else 4})
    chk.sample({"tree": "chain", "sequence": [small[0][0], small[2][0], small[13][0]], "checked": "16 ordered pairs of nodes, scene hits, lights"})
