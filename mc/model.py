"""Independent reference model of photon transport through nested convex
primitives.  Deliberately plain: lists, floats and closed formulae; no code of
the implementation under test is used.

A scene is a plain dict:
  nodes: list of {name, parent(index or None), shape, pose ops, n, surface,
                  comps:[...]}; node 0 is the world.
  shape: ("box",(a,b,c)) | ("sphere",r) | ("cyl",length,radius)
  ops:   list of ("t",(x,y,z)) | ("r",angle,(i,j,k))   (parent frame, body
         rotation about the current location)
  surface: "fresnel" | "null"
  comps: {kind: absorber|scatterer|luminophore|reactor, name, coef: float or
          [(x,y)..], qy, tau_rad, tau_nr, phase: ("iso",)|("hg",g)|("cone",t),
          ems:[(x,y)..]}
"""
import math

TINY = 1e-9
C = 2.99792458e10
KB = 1.380649e-23 / 1.60217662e-19


# --- linear algebra -----------------------------------------------------
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def along(p, d, t):
    return (p[0] + d[0] * t, p[1] + d[1] * t, p[2] + d[2] * t)


def scale(a, s):
    return (a[0] * s, a[1] * s, a[2] * s)


def length(a):
    return math.sqrt(dot(a, a))


def matvec(R, v):
    return tuple(R[i][0] * v[0] + R[i][1] * v[1] + R[i][2] * v[2] for i in range(3))


def matTvec(R, v):
    return tuple(R[0][i] * v[0] + R[1][i] * v[1] + R[2][i] * v[2] for i in range(3))


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rodrigues(angle, axis):
    l = length(axis)
    x, y, z = axis[0] / l, axis[1] / l, axis[2] / l
    c, s = math.cos(angle), math.sin(angle)
    v = 1 - c
    return [[c + x * x * v, x * y * v - z * s, x * z * v + y * s],
            [y * x * v + z * s, c + y * y * v, y * z * v - x * s],
            [z * x * v - y * s, z * y * v + x * s, c + z * z * v]]


IDENT = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]


def local_pose(ops):
    R, t = IDENT, (0.0, 0.0, 0.0)
    for op in ops:
        if op[0] == "t":
            t = (t[0] + op[1][0], t[1] + op[1][1], t[2] + op[1][2])
        elif op[0] == "r":
            R = matmul(rodrigues(op[1], op[2]), R)
        else:
            raise ValueError(op)
    return R, t


# --- shapes ---------------------------------------------------------------
def roots(shape, o, d):
    """All real line parameters t where the line o+td crosses the surface."""
    kind = shape[0]
    if kind == "box":
        lo, hi = -math.inf, math.inf
        for i in range(3):
            h = shape[1][i] / 2
            if d[i] == 0.0:
                if abs(o[i]) > h:
                    return []
                continue
            a, b = (-h - o[i]) / d[i], (h - o[i]) / d[i]
            lo, hi = max(lo, min(a, b)), min(hi, max(a, b))
        return [lo, hi] if lo < hi else []
    if kind == "sphere":
        b = dot(o, d)
        c = dot(o, o) - shape[1] ** 2
        q = b * b - c
        if q <= 0:
            return []
        q = math.sqrt(q)
        return [-b - q, -b + q]
    L, r = shape[1], shape[2]
    # convex: intersection of slab |z|<L/2 with infinite cylinder
    lo, hi = -math.inf, math.inf
    if d[2] == 0.0:
        if abs(o[2]) > L / 2:
            return []
    else:
        a, b = (-L / 2 - o[2]) / d[2], (L / 2 - o[2]) / d[2]
        lo, hi = min(a, b), max(a, b)
    A = d[0] * d[0] + d[1] * d[1]
    Cc = o[0] * o[0] + o[1] * o[1] - r * r
    if A < 1e-30:
        if Cc > 0:
            return []
    else:
        B = o[0] * d[0] + o[1] * d[1]
        q = B * B - A * Cc
        if q <= 0:
            return []
        q = math.sqrt(q)
        lo, hi = max(lo, (-B - q) / A), min(hi, (-B + q) / A)
    return [lo, hi] if lo < hi else []


def inside(shape, p):
    kind = shape[0]
    if kind == "box":
        return all(abs(p[i]) < shape[1][i] / 2 for i in range(3))
    if kind == "sphere":
        return dot(p, p) < shape[1] ** 2
    return abs(p[2]) < shape[1] / 2 and p[0] ** 2 + p[1] ** 2 < shape[2] ** 2


def outward(shape, p):
    kind = shape[0]
    if kind == "box":
        best = None
        for i in range(3):
            gap = abs(abs(p[i]) - shape[1][i] / 2)
            if best is None or gap < best[0]:
                n = [0.0, 0.0, 0.0]
                n[i] = 1.0 if p[i] > 0 else -1.0
                best = (gap, tuple(n))
        return best[1]
    if kind == "sphere":
        return scale(p, 1 / length(p))
    r = math.sqrt(p[0] ** 2 + p[1] ** 2)
    if abs(abs(p[2]) - shape[1] / 2) < abs(r - shape[2]):
        return (0.0, 0.0, 1.0 if p[2] > 0 else -1.0)
    return (p[0] / r, p[1] / r, 0.0)


# --- spectra ----------------------------------------------------------------
def interp(pts, x):
    if x <= pts[0][0]:
        return pts[0][1]
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        if x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    return pts[-1][1]


def cdf(pts):
    acc, out = 0.0, [0.0]
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        acc += 0.5 * (y0 + y1) * (x1 - x0)
        out.append(acc)
    return [c / acc for c in out]


def cdf_at(pts, x):
    return interp(list(zip([p[0] for p in pts], cdf(pts))), x)


def inv_cdf(pts, g):
    c = cdf(pts)
    for i in range(1, len(c)):
        if g <= c[i]:
            if c[i] == c[i - 1]:
                continue
            x0, x1 = pts[i - 1][0], pts[i][0]
            return x0 + (x1 - x0) * (g - c[i - 1]) / (c[i] - c[i - 1])
    return pts[-1][0]


def coef(comp, nm):
    c = comp["coef"]
    return c if isinstance(c, (int, float)) else interp(c, nm)


# --- optics -------------------------------------------------------------------
def fresnel_R(cosi, n1, n2):
    sint2 = (n1 / n2) ** 2 * (1 - cosi * cosi)
    if sint2 > 1:
        return 1.0
    cost = math.sqrt(1 - sint2)
    rs = (n1 * cosi - n2 * cost) / (n1 * cosi + n2 * cost)
    rp = (n1 * cost - n2 * cosi) / (n1 * cost + n2 * cosi)
    return 0.5 * (rs * rs + rp * rp)


def mirror(d, nrm):
    k = 2 * dot(d, nrm)
    return (d[0] - k * nrm[0], d[1] - k * nrm[1], d[2] - k * nrm[2])


def refract(d, nrm, n1, n2):
    if dot(d, nrm) < 0:
        nrm = scale(nrm, -1)
    cosi = dot(d, nrm)
    eta = n1 / n2
    tang = (d[0] - cosi * nrm[0], d[1] - cosi * nrm[1], d[2] - cosi * nrm[2])
    tang = scale(tang, eta)
    cost = math.sqrt(1 - dot(tang, tang))
    return along(tang, nrm, cost)


def phase_dir(phase, draw):
    if phase[0] == "hg" and abs(phase[1]) > 1e-12:
        g = phase[1]
        s = 2 * draw() - 1
        mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
        phi = 2 * math.pi * draw()
    elif phase[0] == "cone":
        mu = math.cos(math.asin(math.sqrt(draw()) * math.sin(phase[1])))
        phi = 2 * math.pi * draw()
    else:
        phi = 2 * math.pi * draw()
        mu = 2 * draw() - 1
    st = math.sqrt(max(0.0, 1 - mu * mu))
    return (st * math.cos(phi), st * math.sin(phi), mu)


class Scene:
    def __init__(self, spec):
        self.spec = spec
        self.nodes = spec["nodes"]
        self.R, self.T, self.depth = [], [], []
        for nd in self.nodes:
            R, t = local_pose(nd.get("ops", ()))
            if nd["parent"] is None:
                self.R.append(R); self.T.append(t); self.depth.append(0)
            else:
                p = nd["parent"]
                self.R.append(matmul(self.R[p], R))
                self.T.append(tuple(a + b for a, b in zip(matvec(self.R[p], t), self.T[p])))
                self.depth.append(self.depth[p] + 1)
        self.margin = math.inf   # closest any decision came to a tie
        self.solid = [i for i, nd in enumerate(self.nodes) if nd.get("shape")]

    def to_local(self, i, p):
        return matTvec(self.R[i], sub(p, self.T[i]))

    def vec_local(self, i, v):
        return matTvec(self.R[i], v)

    def vec_world(self, i, v):
        return matvec(self.R[i], v)

    def innermost(self, p):
        best = None
        for i in self.solid:
            if inside(self.nodes[i]["shape"], self.to_local(i, p)):
                if best is None or self.depth[i] > self.depth[best]:
                    best = i
        return best

    def ahead(self, p, d):
        hits = []
        for i in self.solid:
            for t in roots(self.nodes[i]["shape"], self.to_local(i, p), self.vec_local(i, d)):
                if t > TINY:
                    hits.append((t, i))
        hits.sort()
        return hits

    def normal(self, i, p):
        return self.vec_world(i, outward(self.nodes[i]["shape"], self.to_local(i, p)))

    def near(self, gap):
        if abs(gap) < self.margin:
            self.margin = abs(gap)

    def trace(self, ray, draw, maxsteps=1000, maxpath=math.inf, method="kT"):
        """ray: (pos, dir, nm, source).  Yields event dicts."""
        pos, d, nm, source = ray
        travelled = duration = 0.0

        def ev(kind, **kw):
            e = {"event": kind, "pos": pos, "dir": d, "nm": nm, "travelled": travelled,
                 "duration": duration, "source": source, "hit": None, "container": None,
                 "adjacent": None, "component": None, "normal": None}
            e.update(kw)
            return e
        yield ev("GENERATE")
        steps = 0
        name = lambda i: None if i is None else self.nodes[i]["name"]
        while True:
            steps += 1
            hits = self.ahead(pos, d)
            if not hits:
                return
            dist, hit = hits[0]
            cont = self.innermost(along(pos, d, dist / 2))
            if cont is None:
                # outside everything: the tracer treats the hit node as container
                raise AssertionError("model: photon outside the world")
            if steps > maxsteps or travelled > maxpath:
                yield ev("KILL", container=name(cont))
                return
            n1 = self.nodes[cont]["n"]
            nxt = hits[1][0] if len(hits) > 1 else None
            adj = None if nxt is None else self.innermost(along(pos, d, (dist + nxt) / 2))
            if hit == 0:
                pos = along(pos, d, dist)
                travelled += dist
                duration += dist * n1 / C
                yield ev("EXIT", hit=name(hit), container=name(cont), adjacent=None)
                return
            comps = self.nodes[cont].get("comps", ())
            alphas = [coef(c, nm) for c in comps]
            alpha = sum(alphas)
            depth = math.inf
            if alpha > 1e-8:
                depth = -math.log(1 - draw()) / alpha
            self.near(depth - dist)
            if depth < dist:
                pos = along(pos, d, depth)
                travelled += depth
                duration += depth * n1 / C
                u = draw() * alpha
                for j in range(1, len(comps)):
                    self.near(u - sum(alphas[:j]))
                k = 0
                while k < len(comps) - 1 and u >= sum(alphas[:k + 1]):
                    k += 1
                comp = comps[k]
                yield ev("ABSORB", container=name(cont), component=comp["name"])
                kind = comp["kind"]
                radiative = False
                if kind in ("scatterer", "luminophore"):
                    qy = comp.get("_qy", comp.get("qy", 1.0))
                    u = draw()
                    self.near(u - qy)
                    radiative = u < qy
                if radiative:
                    # the phase function is sampled in the local frame of the
                    # containing node
                    new = phase_dir(comp.get("phase", ("iso",)), draw)
                    d = self.vec_world(cont, new)
                    source = comp["name"]
                    if kind == "luminophore":
                        ems = comp["ems"]
                        if method == "full":
                            p1 = 0.0
                        else:
                            x = nm
                            if method == "kT":
                                x = 1240.0 / (1240.0 / nm + 1.5 * KB * 300.0)
                            p1 = cdf_at(ems, x)
                        nm = inv_cdf(ems, p1 + (1 - p1) * draw())
                        if comp.get("tau_rad"):
                            duration += -math.log(1 - draw()) * comp["tau_rad"]
                        yield ev("EMIT", container=name(cont), component=comp["name"])
                    else:
                        yield ev("SCATTER", container=name(cont), component=comp["name"])
                    continue
                if comp.get("tau_nr"):
                    duration += -math.log(1 - draw()) * comp["tau_nr"]
                yield ev("REACT" if kind == "reactor" else "NONRADIATIVE",
                         container=name(cont), component=comp["name"])
                return
            pos = along(pos, d, dist)
            travelled += dist
            duration += dist * n1 / C
            nrm = self.normal(hit, pos)
            r = 0.0
            if self.nodes[hit].get("surface", "fresnel") == "fresnel":
                r = fresnel_R(abs(dot(d, nrm)), n1, self.nodes[adj]["n"])
            u = draw() if r > 0 else 1.0
            if r < 1:
                self.near(u - r)
            if len(hits) > 1:
                self.near(hits[1][0] - dist)
            if u < r:
                d = mirror(d, nrm)
                yield ev("REFLECT", hit=name(hit), container=name(cont), adjacent=name(adj), normal=nrm)
                continue
            if self.nodes[hit].get("surface", "fresnel") == "fresnel":
                d = refract(d, nrm, n1, self.nodes[adj]["n"])
            yield ev("TRANSMIT", hit=name(hit), container=name(cont), adjacent=name(adj), normal=nrm)
