"""The family of scenes explored by the transport checks (plain data)."""
import math

TRI_ABS = [(300.0, 0.2), (500.0, 3.0), (700.0, 0.4), (900.0, 0.05)]
TRI_EMS = [(420.0, 0.0), (520.0, 1.0), (560.0, 2.5), (640.0, 1.0), (800.0, 0.0)]
GRID_EMS = [(380.0 + 50 * i, y) for i, y in enumerate([0.0, 1.0, 4.0, 2.0, 3.0, 0.5, 0.4, 0.1, 0.0])]


def unit(*v):
    l = math.sqrt(sum(x * x for x in v))
    return tuple(x / l for x in v)


def node(name, parent, shape, n=1.0, ops=(), surface="fresnel", comps=()):
    return dict(name=name, parent=parent, shape=shape, n=n, ops=list(ops),
                surface=surface, comps=list(comps))


def comp(kind, name, coef, **kw):
    return dict(kind=kind, name=name, coef=coef, **kw)


def family():
    S = {}

    def scene(key, nodes, rays, **kw):
        S[key] = dict(key=key, nodes=nodes, rays=rays, **kw)

    down = unit(0.11, -0.07, -1.0)
    # 1. LSC slab: luminophore and background absorber
    scene("lsc", [
        node("world", None, ("sphere", 8.0)),
        node("slab", 0, ("box", (4.0, 5.0, 1.1)), n=1.5, comps=[
            comp("luminophore", "dye", TRI_ABS, qy=0.8, ems=GRID_EMS),
            comp("absorber", "bg", 0.15)]),
    ], [((0.31, -0.23, 3.0), down, 510.0), ((0.4, 0.3, 0.2), unit(1, 0.3, 0.2), 560.0)])
    # 2. two solids side by side, one nested three deep, rotated placements
    scene("nested", [
        node("world", None, ("box", (14.0, 15.0, 16.0))),
        node("outer", 0, ("box", (6.0, 5.0, 4.0)), n=1.3,
             ops=[("r", 0.4, (0.2, 0.3, 1.0)), ("t", (0.5, -0.4, 0.3))],
             comps=[comp("scatterer", "haze", 0.12, qy=0.9, phase=("hg", 0.6), tau_nr=2e-10)]),
        node("ball", 1, ("sphere", 1.5), n=1.8, ops=[("t", (0.4, 0.3, -0.2))],
             comps=[comp("reactor", "mix", 0.4), comp("scatterer", "fog", 0.3, qy=1.0)]),
        node("rod", 2, ("cyl", 1.4, 0.5), n=1.1, ops=[("r", 0.7, (1.0, 0.2, 0.0))],
             comps=[comp("absorber", "ink", 0.5, tau_nr=1e-10)]),
        node("pebble", 0, ("sphere", 0.9), n=1.6, ops=[("t", (-1.5, 0.5, 5.0))]),
    ], [((0.2, 0.1, 6.0), unit(0.03, -0.12, -1.0), 600.0),
        ((0.45, -0.2, 0.15), unit(0.3, 1.0, 0.4), 450.0)])
    # 3. time resolved: lifetimes everywhere, three components in one volume
    scene("times", [
        node("world", None, ("sphere", 6.0)),
        node("cell", 0, ("cyl", 3.0, 1.2), n=1.4, ops=[("r", 0.5, (0.0, 1.0, 0.3))], comps=[
            comp("luminophore", "dye", 1.2, tau_rad=3e-10, tau_nr=7e-10, ems=GRID_EMS),
            comp("absorber", "bg", 0.43, tau_nr=2e-10),
            comp("scatterer", "sc", 0.7, qy=0.6, tau_nr=4e-10, phase=("cone", 0.9))]),
    ], [((0.1, 0.2, 0.3), unit(0.5, 0.4, 0.3), 480.0),
        ((2.5, 0.3, 0.1), unit(-1.0, -0.1, 0.05), 520.0)])
    # 4. null counting sheets around a scattering block; absorbing world
    scene("sheets", [
        node("world", None, ("box", (9.0, 9.5, 10.0)), comps=[comp("absorber", "air", 0.05)]),
        node("gate", 0, ("box", (3.0, 3.2, 3.4)), n=1.0, surface="null",
             ops=[("t", (0.3, 0.1, 0.2))]),
        node("block", 1, ("box", (1.5, 1.4, 1.3)), n=1.5, surface="fresnel",
             ops=[("r", 0.3, (0.0, 0.0, 1.0))],
             comps=[comp("scatterer", "sc", TRI_ABS, phase=("hg", -0.4)), comp("reactor", "rx", 0.6)]),
    ], [((0.25, 0.15, 4.0), unit(0.02, 0.03, -1.0), 500.0),
        ((-2.0, 0.2, 0.4), unit(1.0, -0.05, -0.1), 650.0)])
    # 5. total internal reflection guide: high index, weak absorber
    scene("guide", [
        node("world", None, ("sphere", 12.0)),
        node("bar", 0, ("box", (7.0, 1.0, 1.2)), n=2.0, comps=[
            comp("luminophore", "red", [(300.0, 0.08), (500.0, 0.12), (900.0, 0.06)], qy=1.0, ems=GRID_EMS, phase=("hg", 0.1))]),
    ], [((-3.0, 0.12, 0.17), unit(1.0, 0.31, 0.42), 540.0)], maxsteps=6)
    # 6. red then blue dyes in parallel slabs with a cylinder between
    scene("tandem", [
        node("world", None, ("box", (11.0, 12.0, 13.0)), n=1.1),
        node("top", 0, ("box", (3.0, 3.5, 0.5)), n=1.6, ops=[("t", (0, 0, 1.0))], comps=[
            comp("luminophore", "blue", [(300.0, 2.0), (480.0, 1.0), (650.0, 0.0), (900.0, 0.0)], qy=0.9,
                 ems=[(380.0 + 60 * i, y) for i, y in enumerate([0.0, 1.0, 2.0, 1.0, 0.5, 0.2, 0.1, 0.0])])]),
        node("bot", 0, ("box", (3.0, 3.5, 0.5)), n=1.7, ops=[("t", (0, 0, -1.0))], comps=[
            comp("luminophore", "red", [(300.0, 0.0), (480.0, 1.0), (650.0, 2.0), (900.0, 1.0)], qy=0.7,
                 ems=GRID_EMS, phase=("cone", 0.4)),
            comp("luminophore", "red2", 0.8, qy=0.53, ems=GRID_EMS)]),
        node("pipe", 0, ("cyl", 3.2, 0.3), n=1.4, ops=[("r", math.pi / 2, (1.0, 0.0, 0.0))]),
    ], [((0.9, 0.2, 3.0), unit(-0.05, 0.1, -1.0), 450.0),
        ((0.7, 0.2, 0.1), unit(0.1, 0.05, -1.0), 620.0)])
    # 7. starts inside the innermost of concentric shells
    scene("shells", [
        node("world", None, ("sphere", 5.0)),
        node("s1", 0, ("sphere", 3.0), n=1.2, comps=[comp("absorber", "a1", 0.3)]),
        node("s2", 1, ("sphere", 2.0), n=1.9, comps=[comp("scatterer", "a2", 0.2)]),
        node("s3", 2, ("sphere", 1.0), n=1.4, surface="null", comps=[comp("reactor", "a3", 0.3)]),
    ], [((0.1, 0.2, 0.3), unit(0.3, 0.2, 0.9), 555.0),
        ((-3.5, 0.2, 0.3), unit(1.0, 0.1, 0.15), 555.0)])
    # 8. groups: the parent is a node without geometry
    scene("group", [
        node("world", None, ("sphere", 7.0)),
        dict(name="grp", parent=0, shape=None, n=1.0, ops=[("r", 0.6, (0.1, 1.0, 0.2)), ("t", (0.4, 0.2, -0.3))], surface="fresnel", comps=[]),
        node("gbox", 1, ("box", (2.0, 2.2, 2.4)), n=1.5, ops=[("t", (0.3, -0.1, 0.2))],
             comps=[comp("luminophore", "dye", [(300.0, 0.7), (520.0, 1.3), (700.0, 0.6), (900.0, 0.2)], qy=0.75, ems=GRID_EMS, phase=("hg", 0.3))]),
        node("gcyl", 2, ("cyl", 1.5, 0.4), n=1.2, ops=[("r", 1.1, (0.3, 0.1, 1.0))],
             comps=[comp("absorber", "ink", 1.5)]),
    ], [((0.6, 0.3, 4.0), unit(0.01, -0.04, -1.0), 530.0)])
    # 9. very weakly attenuating materials (explored with tiny draws)
    scene("weak", [
        node("world", None, ("sphere", 30.0)),
        node("haze", 0, ("sphere", 12.0), n=1.05, comps=[
            comp("absorber", "dust", 7e-4, tau_nr=1e-10), comp("scatterer", "mist", [(300.0, 2e-4), (500.0, 1e-5), (900.0, 3e-3)], qy=0.9)]),
        node("core", 1, ("cyl", 6.0, 2.0), n=1.2, ops=[("t", (0.3, 0.4, -0.5))],
             comps=[comp("reactor", "slow", 1e-3), comp("absorber", "trace", 4e-6)]),
        node("speck", 0, ("sphere", 2.0), n=1.3, ops=[("t", (0.2, 0.3, 16.0))], comps=[comp("absorber", "ghost", 2e-6)]),
    ], [((0.12, 0.6, 20.0), unit(0.01, -0.02, -1.0), 510.0),
        ((14.0, 0.2, 0.3), unit(-1.0, 0.02, 0.01), 700.0)], tiny=True)
    for s in S.values():
        for nd in s["nodes"]:
            for c in nd["comps"]:
                if c["kind"] in ("scatterer", "luminophore"):
                    if c.get("tau_rad") and c.get("tau_nr"):
                        c["_qy"] = c["tau_nr"] / (c["tau_nr"] + c["tau_rad"])
                    else:
                        c["_qy"] = c.get("qy", 1.0)
    return S
