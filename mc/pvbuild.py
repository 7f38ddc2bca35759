"""Build pvtrace objects from the plain scene data of mc.scenes."""
import numpy as np


def load():
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.geometry.cylinder import Cylinder
    from pvtrace.material.material import Material
    from pvtrace.material.surface import Surface, NullSurfaceDelegate
    from pvtrace.material import component as C
    from pvtrace.material.utils import HenyeyGreenstein, Cone, isotropic
    from pvtrace.light.light import Light
    from pvtrace.light.ray import Ray
    from pvtrace.algorithm import photon_tracer
    return dict(locals())


def make_comp(L, c):
    coef = c["coef"]
    coef = float(coef) if isinstance(coef, (int, float)) else np.array(coef, float)
    ph = c.get("phase", ("iso",))
    pf = {"iso": lambda: None, "hg": lambda: L["HenyeyGreenstein"](ph[1]),
          "cone": lambda: L["Cone"](ph[1])}[ph[0]]()
    C, k = L["C"], c["kind"]
    if k == "absorber":
        return C.Absorber(coef, name=c["name"], tau_nr=c.get("tau_nr"))
    if k == "reactor":
        return C.Reactor(coef, name=c["name"])
    kw = dict(quantum_yield=c.get("qy", 1.0), tau_rad=c.get("tau_rad"),
              tau_nr=c.get("tau_nr"), phase_function=pf, name=c["name"])
    if k == "scatterer":
        return C.Scatterer(coef, **kw)
    return C.Luminophore(coef, emission=np.array(c["ems"], float), **kw)


def build_nodes(L, spec):
    nodes = []
    for nd in spec["nodes"]:
        geom = None
        if nd["shape"]:
            surf = L["Surface"](delegate=L["NullSurfaceDelegate"]()) if nd["surface"] == "null" else L["Surface"]()
            mat = L["Material"](refractive_index=nd["n"], surface=surf,
                                components=[make_comp(L, c) for c in nd["comps"]])
            s = nd["shape"]
            if s[0] == "box":
                geom = L["Box"](s[1], material=mat)
            elif s[0] == "sphere":
                geom = L["Sphere"](s[1], material=mat)
            else:
                geom = L["Cylinder"](s[1], s[2], material=mat)
        parent = None if nd["parent"] is None else nodes[nd["parent"]]
        n = L["Node"](name=nd["name"], parent=parent, geometry=geom)
        for op in nd["ops"]:
            if op[0] == "t":
                n.translate(op[1])
            else:
                n.rotate(op[1], op[2])
        nodes.append(n)
    return nodes


def build_scene(L, spec):
    nodes = build_nodes(L, spec)
    return L["Scene"](nodes[0]), nodes


def canon(e):
    """Discrete and continuous part of one event record (dict form)."""
    key = (e["event"], e["hit"], e["container"], e["adjacent"], e["component"], e["source"])
    vec = list(e["pos"]) + list(e["dir"]) + [e["nm"] / 100.0, e["travelled"], e["duration"] * 2.99792458e10]
    if e["normal"] is not None:
        vec += list(e["normal"])
    return key, vec


def canon_history(events):
    ks, vs = [], []
    for e in events:
        k, v = canon(e)
        ks.append(k)
        vs += v
    return tuple(ks), vs


def as_dict(ray, event, meta):
    m = meta or {}
    return {"event": event.name, "pos": ray.position, "dir": ray.direction, "nm": ray.wavelength,
            "travelled": ray.travelled, "duration": ray.duration, "source": ray.source,
            "hit": m.get("hit"), "container": m.get("container"), "adjacent": m.get("adjacent"),
            "component": m.get("component"), "normal": m.get("normal")}
