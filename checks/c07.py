"""C07: every feature and every pair of features of a scene; the engine either
refuses it with UnsupportedSceneError or follows the Python tracer's law."""
from mc import base, choice
choice.install()
import itertools
import math
import numpy as np
from mc import transport as T, scenes, pvbuild, kernel  # noqa

D = choice.DRIVER
UP = scenes.unit(0.03, -0.05, 1.0)


class Env:
    """A scene under construction; features edit it in two phases."""

    def __init__(self):
        from pvtrace.scene.node import Node
        from pvtrace.scene.scene import Scene
        from pvtrace.geometry.box import Box
        from pvtrace.geometry.sphere import Sphere
        from pvtrace.geometry.cylinder import Cylinder
        from pvtrace.geometry.mesh import Mesh
        from pvtrace.material.material import Material
        from pvtrace.material import surface as S, component as C, utils as U, distribution as Dm
        from pvtrace.light import light as Lt
        from pvtrace.light.light import Light
        from pvtrace.engine import recorder as R
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.world_geom = lambda m: Sphere(9.0, material=m)
        self.world_mat = lambda: Material(refractive_index=1.0)
        self.block_geom = lambda m: Box((3.0, 3.2, 2.4), material=m)
        self.block_n = 1.45
        self.block_comps = [lambda: C.Absorber(0.25, name="bg")]
        self.block_surface = lambda: None
        self.MatCls = Material
        self.ball_mat = lambda: Material(refractive_index=1.2, components=[C.Scatterer(0.4, name="fog")])
        self.group = False
        self.block_ops, self.group_ops, self.ball_ops, self.world_ops = [], [], [], []
        self.world_recs, self.block_recs, self.ball_recs = [], [], []
        self.extra_nodes = 0
        self.light = lambda: Light(wavelength=Lt.ConstantWavelengthMask(540.0), name="src")
        self.node_cls = Node
        self.opts = {}

    def ems(self):
        return np.array(scenes.GRID_EMS, float)

    def abs(self):
        return np.array(scenes.TRI_ABS, float)

    def build(self):
        Node = self.Node
        world = Node(name="world", geometry=self.world_geom(self.world_mat()))
        if world.geometry is not None and self.world_recs:
            world.recorders = [r() for r in self.world_recs]
        parent = world
        if self.group:
            parent = Node(name="grp", parent=world)
            for f in self.group_ops:
                f(parent)
        kw = {}
        if self.block_surface() is not None:
            kw["surface"] = self.block_surface()
        mat = self.MatCls(refractive_index=self.block_n, components=[c() for c in self.block_comps], **kw) \
            if self.MatCls else None
        block = Node(name="block", parent=parent, geometry=self.block_geom(mat))
        block.translate((0.15, -0.1, 0.2))
        for f in self.block_ops:
            f(block)
        ball = Node(name="ball", parent=block, geometry=self.Sphere(0.7, material=self.ball_mat()))
        ball.translate((0.1, 0.05, -0.2))
        for f in self.ball_ops:
            f(ball)
        block.recorders = [r() for r in self.block_recs]
        ball.recorders = [r() for r in self.ball_recs]
        for i in range(self.extra_nodes):
            a = 2 * math.pi * i / max(1, self.extra_nodes)
            n = Node(name=f"x{i}", parent=world, geometry=self.Sphere(
                0.05, material=self.Material(refractive_index=1.0 + i % 3 * 0.2)))
            n.translate((6 * math.cos(a), 6 * math.sin(a), 0.1 * (i % 7)))
        lamp = Node(name="lamp", parent=world, light=self.light())
        lamp.rotate(0.07, (0.6, 0.8, 0.0))
        lamp.translate((0.3, -0.2, -4.0))
        for f in self.world_ops:
            f(world)
        return self.Scene(world)


def scaled(s):
    def f(n):
        p = np.array(n.pose, float)
        p[:3, :3] = p[:3, :3] @ (np.diag(s) if np.ndim(s) == 1 else np.asarray(s))
        n.pose = p
    return f


FEATURES = {}


def feat(name, group, want):
    """want: 'ok' accepted and faithful; 'no' refused; 'any' either."""
    def d(fn):
        FEATURES[name] = (group, want, fn)
        return fn
    return d


# -- geometry ---------------------------------------------------------------
@feat("geom sphere", "geom", "ok")
def _(e): e.block_geom = lambda m: e.Sphere(1.6, material=m)
@feat("geom cylinder", "geom", "ok")
def _(e): e.block_geom = lambda m: e.Cylinder(2.6, 1.3, material=m)
@feat("geom mesh", "geom", "no")
def _(e):
    import trimesh
    e.block_geom = lambda m: e.Mesh(trimesh.creation.box((3.0, 3.2, 2.4)), material=m)
@feat("geom mesh in ball", "geomball", "no")
def _(e):
    import trimesh
    def f(n): n.geometry = e.Mesh(trimesh.creation.icosphere(1, 0.7), material=n.geometry.material)
    e.ball_ops.append(f)
@feat("geom box subclass", "geom", "no")
def _(e):
    class Half(e.Box):
        def intersections(self, o, d): return super().intersections(o, d)[:0]
    e.block_geom = lambda m: Half((3.0, 3.2, 2.4), material=m)
@feat("geom sphere subclass", "geom", "no")
def _(e):
    class Fuzzy(e.Sphere):
        def normal(self, p): return (0.0, 0.0, 1.0)
    e.block_geom = lambda m: Fuzzy(1.6, material=m)
@feat("geom cylinder subclass", "geom", "no")
def _(e):
    class Cyl(e.Cylinder):
        def contains(self, p): return False
    e.block_geom = lambda m: Cyl(2.6, 1.3, material=m)
@feat("world mesh", "world", "no")
def _(e):
    import trimesh
    e.world_geom = lambda m: e.Mesh(trimesh.creation.box((16.0, 16.0, 16.0)), material=m)
@feat("world box", "world", "ok")
def _(e): e.world_geom = lambda m: e.Box((17.0, 18.0, 19.0), material=m)
@feat("world cylinder", "world", "ok")
def _(e): e.world_geom = lambda m: e.Cylinder(20.0, 9.0, material=m)
# -- placement -----------------------------------------------------------------
@feat("rotated", "pose", "ok")
def _(e): e.block_ops.append(lambda n: n.rotate(0.5, (0.2, 1.0, 0.4)))
@feat("group", "group", "ok")
def _(e): e.group = True; e.group_ops.append(lambda n: (n.rotate(0.3, (1.0, 0.1, 0)), n.translate((0.1, 0.2, 0.1))))
@feat("scaled", "pose", "no")
def _(e): e.block_ops.append(scaled((1.2, 1.2, 1.2)))
@feat("shrunk", "pose", "no")
def _(e): e.block_ops.append(scaled((0.999, 0.999, 0.999)))
@feat("slightly scaled", "pose", "no")
def _(e): e.block_ops.append(scaled((1.0, 1.0, 1.001)))
@feat("barely scaled", "pose", "no")
def _(e): e.block_ops.append(scaled((1.00002, 1.0, 1.0)))
@feat("sheared", "pose", "no")
def _(e): e.block_ops.append(scaled([[1, 0.1, 0], [0, 1, 0], [0, 0, 1.0]]))
@feat("volume-preserving stretch", "pose", "no")
def _(e): e.block_ops.append(scaled((1.25, 0.8, 1.0)))
@feat("ball scaled", "poseball", "no")
def _(e): e.ball_ops.append(scaled((0.9, 1.0, 1.0)))
@feat("group scaled", "group", "no")
def _(e): e.group = True; e.group_ops.append(scaled((1.1, 1.0, 1.0)))
@feat("mirrored", "pose", "any")
def _(e): e.block_ops.append(scaled((1.0, -1.0, 1.0)))
@feat("world moved", "wpose", "any")
def _(e): e.world_ops.append(lambda n: n.translate((0.3, 0.1, 0.2)))
# -- surfaces -------------------------------------------------------------------
@feat("null surface", "surf", "ok")
def _(e): e.block_surface = lambda: e.S.Surface(delegate=e.S.NullSurfaceDelegate())
@feat("custom delegate", "surf", "no")
def _(e):
    class Mirror(e.S.SurfaceDelegate):
        def reflectivity(self, *a): return 0.5
        def reflected_direction(self, s, ray, geometry, c, a):
            return tuple(e.U.specular_reflection(ray.direction, geometry.normal(ray.position)).tolist())
        def transmitted_direction(self, s, ray, *a): return ray.direction
    e.block_surface = lambda: e.S.Surface(delegate=Mirror())
@feat("fresnel delegate subclass", "surf", "no")
def _(e):
    class Coated(e.S.FresnelSurfaceDelegate):
        def reflectivity(self, *a): return 0.5 * super().reflectivity(*a)
    e.block_surface = lambda: e.S.Surface(delegate=Coated())
@feat("null delegate subclass", "surf", "no")
def _(e):
    class Tilt(e.S.NullSurfaceDelegate):
        def reflectivity(self, *a): return 0.25
        def reflected_direction(self, s, ray, *a): return tuple(-x for x in ray.direction)
    e.block_surface = lambda: e.S.Surface(delegate=Tilt())
@feat("surface subclass", "surf", "no")
def _(e):
    class Sticky(e.S.Surface):
        def is_reflected(self, *a): return False
    e.block_surface = lambda: Sticky()
@feat("duck-typed surface", "surf", "no")
def _(e):
    class Duck(e.S.BaseSurface):
        delegate = property(lambda s: e.S.FresnelSurfaceDelegate())
        def is_reflected(self, *a): return False
        def reflect(self, ray, *a): return ray
        def transmit(self, ray, *a): return ray
    e.block_surface = lambda: Duck()
@feat("custom delegate on ball", "surfball", "no")
def _(e):
    class Mirror(e.S.NullSurfaceDelegate):
        def reflectivity(self, *a): return 0.5
        def reflected_direction(self, s, ray, *a): return tuple(-x for x in ray.direction)
    def f(n): n.geometry.material.surface = e.S.Surface(delegate=Mirror())
    e.ball_ops.append(f)
@feat("custom delegate on world", "surfworld", "any")
def _(e):
    class Mirror(e.S.NullSurfaceDelegate):
        def reflectivity(self, *a): return 0.5
        def reflected_direction(self, s, ray, *a): return tuple(-x for x in ray.direction)
    e.world_mat = lambda: e.Material(1.0, surface=e.S.Surface(delegate=Mirror()))
# -- materials ----------------------------------------------------------------------
@feat("no material", "mat", "no")
def _(e): e.MatCls = None
@feat("no material on ball", "matball", "no")
def _(e): e.ball_mat = lambda: None
@feat("no world material", "matworld", "no")
def _(e): e.world_mat = lambda: None
@feat("material subclass", "mat", "no")
def _(e):
    class Thin(e.Material):
        def penetration_depth(self, nm): return float("inf")
    e.MatCls = Thin
@feat("no world geometry", "world", "no")
def _(e): e.world_geom = lambda m: None
# -- components -------------------------------------------------------------------------
def add(e, fn): e.block_comps.insert(0, fn)
@feat("scatterer", "comp", "ok")
def _(e): add(e, lambda: e.C.Scatterer(0.5, name="sc", quantum_yield=0.7))
@feat("reactor", "comp2", "ok")
def _(e): add(e, lambda: e.C.Reactor(0.5, name="rx"))
@feat("luminophore", "comp", "ok")
def _(e): add(e, lambda: e.C.Luminophore(e.abs(), emission=e.ems(), quantum_yield=0.9, name="dye"))
@feat("luminophore with lifetimes", "comp", "ok")
def _(e): add(e, lambda: e.C.Luminophore(e.abs(), emission=e.ems(), tau_rad=1e-9, tau_nr=3e-9, name="dye"))
@feat("absorber spectrum", "comp2", "ok")
def _(e): add(e, lambda: e.C.Absorber(e.abs(), name="ink", tau_nr=1e-10))
@feat("spectrum from functions", "comp", "ok")
def _(e): add(e, lambda: e.C.Scatterer([lambda x: 0.3 + 0 * x, lambda x: x / 2000], x=np.linspace(300, 900, 25), name="fn"))
@feat("zero coefficient", "comp2", "ok")
def _(e): add(e, lambda: e.C.Scatterer(0.0, name="zero"))
@feat("int coefficient", "comp2", "ok")
def _(e): add(e, lambda: e.C.Absorber(1, name="int"))
@feat("histogram absorber", "comp", "no")
def _(e): add(e, lambda: e.C.Absorber(e.abs(), hist=True, name="h"))
@feat("histogram reactor", "comp", "no")
def _(e): add(e, lambda: e.C.Reactor(e.abs(), hist=True, name="h"))
@feat("histogram scatterer", "comp", "no")
def _(e): add(e, lambda: e.C.Scatterer(e.abs(), hist=True, name="h"))
@feat("histogram luminophore", "comp", "no")
def _(e): add(e, lambda: e.C.Luminophore(e.abs(), emission=e.ems(), hist=True, name="h"))
@feat("histogram emission only", "comp", "no")
def _(e):
    def f():
        c = e.C.Luminophore(e.abs(), emission=e.ems(), name="h")
        c._ems_dist = e.Dm.Distribution(x=e.ems()[:, 0], y=e.ems()[:, 1], hist=True)
        return c
    add(e, f)
@feat("histogram absorption only", "comp", "no")
def _(e): add(e, lambda: e.C.Luminophore(1.0, x=np.linspace(400, 800, 30), hist=True, name="h"))
def sub(clsname, method, fn):
    def make(e):
        cls = getattr(e.C, clsname)
        new = type("My" + clsname, (cls,), {method: fn})
        kw = {"emission": e.ems()} if clsname == "Luminophore" else {}
        add(e, lambda: new(1.0, name="mine", **kw))
    FEATURES[f"{clsname} subclass ({method})"] = ("comp", "no", make)
sub("Absorber", "coefficient", lambda s, nm: 3.0)
sub("Reactor", "is_radiative", lambda s, r: True)
sub("Scatterer", "emit", lambda s, ray, **k: ray)
sub("Scatterer", "is_radiative", lambda s, ray: True)
sub("Luminophore", "emit", lambda s, ray, **k: ray)
sub("Luminophore", "coefficient", lambda s, nm: 2.0)
sub("Absorber", "nonradiative_absorb", lambda s, ray: ray)
@feat("duck-typed component", "comp", "no")
def _(e):
    class Duck(e.C.Component):
        def coefficient(self, nm): return 0.7
    add(e, lambda: Duck(name="duck"))
# -- phase functions ------------------------------------------------------------------------
def phase(label, want, make):
    def f(e): add(e, lambda: e.C.Scatterer(0.6, phase_function=make(e), name="ph"))
    FEATURES[f"phase {label}"] = ("phase", want, f)
    def g(e): add(e, lambda: e.C.Luminophore(e.abs(), emission=e.ems(), phase_function=make(e), name="phl"))
    FEATURES[f"emission phase {label}"] = ("phase", want, g)
phase("isotropic", "ok", lambda e: e.U.isotropic)
phase("hg", "ok", lambda e: e.U.HenyeyGreenstein(0.4))
phase("hg backward", "ok", lambda e: e.U.HenyeyGreenstein(-0.7))
phase("hg 0", "ok", lambda e: e.U.HenyeyGreenstein(0.0))
phase("cone", "ok", lambda e: e.U.Cone(0.6))
phase("lambda", "no", lambda e: (lambda: (0.0, 0.0, 1.0)))
phase("lambertian", "any", lambda e: e.U.lambertian)
phase("hg subclass", "no", lambda e: type("H", (e.U.HenyeyGreenstein,), {"__call__": lambda s: (0.0, 0.0, 1.0)})(0.3))
phase("cone subclass", "no", lambda e: type("K", (e.U.Cone,), {"__call__": lambda s: (0.0, 0.0, 1.0)})(0.3))
phase("partial", "any", lambda e: __import__("functools").partial(e.U.henyey_greenstein, 0.3))
phase("bare hg", "any", lambda e: e.U.henyey_greenstein)
# -- recorders ------------------------------------------------------------------------------
def rec(e, *a, **k): return lambda: e.R.Recorder(*a, **k)
for ev in ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"):
    def f(e, ev=ev): e.block_recs.append(rec(e, "r-" + ev, event=ev))
    FEATURES[f"recorder {ev}"] = ("rec", "ok", f)
    def g(e, ev=ev): e.ball_recs.append(rec(e, "f-" + ev, event=ev, facet=(0, 0, 1)))
    FEATURES[f"recorder {ev} facet"] = ("rec", "no" if ev in ("lost", "reacted", "killed") else "ok", g)
@feat("duplicate recorder names", "rec", "no")
def _(e): e.block_recs += [rec(e, "same"), rec(e, "same", event="escaping")]
@feat("duplicate recorder names across nodes", "rec", "no")
def _(e): e.block_recs.append(rec(e, "same")); e.ball_recs.append(rec(e, "same"))
@feat("non-recorder", "rec", "no")
def _(e): e.ball_recs.append(lambda: {"name": "x", "event": "entering"})
@feat("256 recorders", "rec", "ok")
def _(e): e.block_recs += [rec(e, f"q{i}") for i in range(256)]
@feat("257 recorders", "rec", "no")
def _(e): e.block_recs += [rec(e, f"q{i}") for i in range(200)]; e.ball_recs += [rec(e, f"p{i}") for i in range(57)]
@feat("128 nodes", "nodes", "ok")
def _(e): e.extra_nodes = 125
@feat("129 nodes", "nodes", "no")
def _(e): e.extra_nodes = 126
@feat("200 nodes", "nodes", "no")
def _(e): e.extra_nodes = 197
# -- lights and options --------------------------------------------------------------------------
@feat("light subclass", "light", "any")
def _(e):
    from dataclasses import replace
    class Blue(e.Light):
        def emit(self, *a, **k):
            for r in super().emit(*a, **k): yield replace(r, wavelength=470.0)
    e.light = lambda: Blue(wavelength=e.Lt.ConstantWavelengthMask(540.0), name="src")
@feat("redshift", "opt", "ok")
def _(e): e.opts["emit_method"] = "redshift"
@feat("full", "opt", "ok")
def _(e): e.opts["emit_method"] = "full"
# -- impossible settings: whatever the tracer refuses must not be simulated -----------------------
phase("cone too wide", "any", lambda e: e.U.Cone(2.0))
phase("cone closed", "any", lambda e: e.U.Cone(0.0))
@feat("negative coefficient", "comp2", "any")
def _(e): add(e, lambda: e.C.Absorber(-0.5, name="neg")); add(e, lambda: e.C.Absorber(2.0, name="pos"))


def compare(names):
    """Build, compile and, when accepted, compare laws.  (verdict, detail, n)"""
    from pvtrace.engine.compiler import UnsupportedSceneError
    from pvtrace import engine
    from pvtrace.algorithm import photon_tracer
    e = Env()
    for n in names:
        FEATURES[n][2](e)
    try:
        sc = e.build()
    except Exception as x:      # the library itself refuses to build it
        return "unbuildable", f"{type(x).__name__}: {x}", 0
    opts = dict(maxsteps=4, emit_method="kT")
    opts.update(e.opts)
    try:
        with kernel.Script([()]) as s:
            engine.simulate(sc, 1, seed=s.seed, workers=1, max_events=32, record_every=1, **opts)
    except UnsupportedSceneError as x:
        return "refused", str(x), 0
    A = T.TINYA
    B = 1
    # a bundle of nothing is accepted or refused alike
    D.start(())
    ray = next(iter(sc.emit(1)))
    lp = choice.OutcomeLaw(B, len(A))

    def run(devs):
        D.start(devs)
        h = [pvbuild.as_dict(r, ev, m) for r, ev, m in photon_tracer.step_forward(sc, ray, **opts)]
        return h, D.n
    execs = 0
    perr = None
    try:
        for devs, n, h in choice.explore(run, A, B):
            execs += 1
            lp.add(devs, n, *T.project(h, "full"))
    except Exception as x:
        perr = f"{type(x).__name__}: {x}"
    if perr:
        return "mismatch", f"the Python tracer refuses this scene ({perr}), the engine simulates it", execs
    lk = choice.OutcomeLaw(B, len(A))

    def sim(n, seed):
        return engine.simulate(sc, n, seed=seed, workers=1, max_events=32, record_every=1, **opts)
    for part, used, result in kernel.explore(sim, A, B):
        for devs, n, h in zip(part, used, result.histories()):
            execs += 1
            lk.add(devs, n, *T.project([pvbuild.as_dict(r, ev, m) for r, ev, m in h], "full"))
    d = lk.diff(lp)
    if d:
        k, ma, mb, da, db = d[0]
        return "mismatch", "%s: weights engine %s python %s" % ("/".join(str(x[0]) for x in k), ma[:, 0].tolist(), mb[:, 0].tolist()), execs
    return "faithful", len(lk.table), execs


def job(names):
    try:
        return compare(names)
    except Exception as x:
        import traceback
        return "error", f"{type(x).__name__}: {x}", traceback.format_exc()


def main(chk):
    chk.assumptions += ["laws compared with at most one draw departing from the default, two histories steps bound 4",
                        "features combined at most pairwise (quick) / triples of unlike groups on a thinned list (thorough)"]
    kernel.ensure()
    names = list(FEATURES)
    cases = [()] + [(a,) for a in names]
    for a, b in itertools.combinations(names, 2):
        if FEATURES[a][0] == FEATURES[b][0]:
            continue
        wants = {FEATURES[a][1], FEATURES[b][1]}
        if not base.THOROUGH and wants == {"no"} and (hash_(a) + hash_(b)) % 3:
            continue
        cases.append((a, b))
    if base.THOROUGH:
        ok = [n for n in names if FEATURES[n][1] != "no"]
        for t in itertools.combinations(ok, 3):
            if len({FEATURES[n][0] for n in t}) == 3 and not any(n == "256 recorders" for n in t):
                cases.append(t)
    res = base.pmap(job, cases, chunksize=8)
    for c, r in zip(cases, res):
        verdict, detail, n = ("error", r[1][-300:], 0) if base.is_exc(r) else r
        wants = {FEATURES[x][1] for x in c}
        label = " + ".join(c) or "plain"
        chk.add("states")
        if isinstance(n, int):
            chk.add("transitions", n)
        chk.add("scenes_" + verdict)
        if verdict == "error":
            chk.violation(f"{label}:error", f"neither accepted nor refused: {detail}", {"features": c, "trace": n})
        elif verdict == "mismatch":
            chk.violation(f"{label}:unfaithful", f"accepted but simulated differently: {detail}", {"features": c})
        elif "no" in wants and verdict == "faithful":
            chk.violation(f"{label}:accepted", "unsupported feature was accepted", {"features": c})
        elif wants <= {"ok"} and verdict == "refused":
            chk.violation(f"{label}:refused", f"a supported scene was refused: {detail}", {"features": c})
        elif wants <= {"ok", "no"} and verdict == "unbuildable":
            chk.violation(f"{label}:unbuildable", detail, {"features": c})
        if verdict == "faithful":
            chk.add("traces_validated_against_impl", n)
            if len(c) == 2:
                chk.sample({"features": c, "executions": n, "distinct_histories": detail})
        if len(c) == 1:
            chk.log(f"{label}: {verdict}") if base.THOROUGH else None


def hash_(s):
    return sum(map(ord, s))
