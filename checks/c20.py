"""C20: studio edits. Explicit-state search over documents: from several initial documents, every sequence of edits (all
structured edits enumerated from the document, valid and invalid, whole-document loads, saves, uploads) up to a depth on
the real application; a reference model over the plain YAML data says what each edit may change or that it
must be refused, and a fresh application of the same text says what scene it means."""
import asyncio
import contextlib
import copy
import io
import json
import math
import os
import re
import shutil
import warnings

import numpy as np
import yaml

from mc import base

NAN, INF = float("nan"), float("inf")

# ---- documents -----------------------------------------------------------------------

SLAB = """\
version: "1.0"  # scene format

nodes:
  world:
    sphere:
      radius: 12.0   # centimetres
      material:
        refractive-index: 1.0

  slab:
    parent: world
    location: [0, 0, 0.5]
    # every face is instrumented
    record: true
    box:
      size: [3, 2, 1]
      material:
        refractive-index: 1.5
        components: [tint, haze]

  lamp:
    parent: world
    location: [0.1, 0.2, 3.0]
    direction: [0, 0.25, -1]
    light:
      wavelength: 555
      mask:
        direction:
          cone:
            half-angle: 12.5

# what the slab is made of
components:
  tint:
    absorber:
      coefficient: 0.3
  haze:
    scatterer:
      coefficient: 0.5
      quantum-yield: 0.9

recorders:
  # the eastern edge
  edge:
    node: slab
    event: escaping
    facet: [1, 0, 0]
    atol: 1.0e-3
    histograms:
      wavelength: [500, 600, 4]
      position: [y, z, [-1, 1, 3], [-0.5, 0.5, 2]]
  all-in:
    node: slab
    event: entering
"""

TREE = """\
version: "1.0"
nodes:
  world: {box: {size: [20, 20, 20], material: {refractive-index: 1}}}
  table:
    location: [1.5, -2, 0.25]
    direction: [0.3, 0.4, 1]
    cylinder: {length: 4, radius: 3, material: {refractive-index: 1.2}}
  ball:
    parent: table
    location: [0.5, 0.5, -0.5]
    sphere: {radius: 0.5, material: {refractive-index: 1.5}}
    record: yes
  spot:
    parent: table
    location: [-1, 0, 1]
    direction: [1, 0, 0]
    light: {wavelength: 600.5}
"""

DYE = """\
version: "1.0"
nodes:
  world:
    sphere: {radius: 10, material: {refractive-index: 1.0}}
  rod:
    cylinder: {length: 1.0, radius: 1.0, material: {refractive-index: 1.5, components: [dye]}}
    record: true
  sun:
    location: [0.0, 0.0, 5.0]
    direction: [0.0, 0.0, -1.0]
    light:
      mask:
        wavelength: {spectrum: {file: glow.csv}}
        position: {rect: [0.5, 0.5]}
components:
  dye:
    luminophore:
      absorption:
        coefficient: 2.0
        spectrum: {file: abs.csv}
      emission: {quantum-yield: 0.9, spectrum: {file: sub/ems.csv}}
"""

BROKEN = """\
version: "1.0"
nodes:
  lone: {sphere: {radius: 1, material: {refractive-index: 1.0}}}
"""

ODD = """\
version: "1.0"
nodes:
  world: {sphere: {radius: 1.2e+01, material: {refractive-index: 1.000}}}
  "on":
    location: [+1.5, -.5, 0.0000001]
    box: {size: [1_0, 2., 0.30000000000000004], material: {refractive-index: 1.5, components: ["yes", '1e5']}}
    record: off
  "null":
    parent: "on"
    direction: [0, 0, -1]
    light: {wavelength: 5.5e+2}
components:
  "yes": {absorber: {coefficient: 1.0e-9}}
  "1e5": {absorber: {coefficient: 0o17}}
recorders: {}
"""
ODD = ODD.replace("0o17", "017")

NOT_DOCS = ["", "just text", "[1, 2]", "a: [", "nodes: {}\nversion: '1.0'\n", "version: '2.0'\nnodes: {world: {sphere: {radius: 1, material: {refractive-index: 1}}}}\n",
            TREE.replace("table", "world", 1), TREE.replace("parent: table", "parent: bench"), SLAB.replace("tint, haze", "tint, fog"),
            SLAB.replace("node: slab", "node: slob", 1), SLAB.replace("event: entering", "event: meeting"), SLAB.replace("[500, 600, 4]", "[600, 500, 4]"),
            SLAB.replace("[500, 600, 4]", "[500, 600]"), SLAB.replace("coefficient: 0.3", "coefficient: -0.3"), DYE.replace("abs.csv", "missing.csv"),
            SLAB.replace("radius: 12.0", "radius: .nan"), SLAB.replace("[0, 0, 0.5]", "[0, 0, .inf]"), SLAB.replace("[3, 2, 1]", "[3, 2]"),
            SLAB.replace("size: [3, 2, 1]", "size: 3"), SLAB + "extra: 1\n", SLAB.replace("555", "!!python/name:os.getcwd"), SLAB.replace("atol: 1.0e-3", "atol: .inf"),
            "version: '1.0'\nnodes:\n  world: {sphere: {radius: 1, material: {refractive-index: 1}}}\n  m: {mesh: {file: none.stl, material: {refractive-index: 1}}}\n",
            SLAB.replace("event: entering", "event: lost\n    facet: [0, 0, 1]"), SLAB.replace("555", "555\n      name: \"\ud800\""), SLAB.replace("555", ".nan"), 17, None, ["x"]]
FINE_DOCS = [TREE, DYE, SLAB.replace("\n", "\r\n"), SLAB.replace("12.5", '"12.5"').replace("slab", "sl\u00e4b".replace("\u00e4", "a")) + "# gr\u00f6\u00dfe \u2713\n", TREE.replace("[1.5, -2, 0.25]", "[0, 0, 0]")]


def write_folder(d, scale=1.0):
    os.makedirs(os.path.join(d, "sub"))
    rows = {"abs.csv": [(400, 0.5 * scale), (500, 2.0), (600, 1.0 * scale)], "sub/ems.csv": [(500, 0.1), (600, 1.0 * scale), (700, 0.2)], "glow.csv": [(450, 1.0), (500, 2.0 * scale), (550, 1.0)]}
    for name, xy in rows.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(",wavelength,value\n")
            for i, (x, y) in enumerate(xy):
                f.write(f"{i},{x},{y}\n")


def listing(d):
    out = {}
    for root, _, files in os.walk(d):
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


# ---- what a document means ---------------------------------------------------------------

def canon(x):
    """Type-aware canonical form (order of mapping keys does not matter)."""
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((repr(canon(k)), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(canon(v) for v in x)
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return (type(x).__name__, x)
    if isinstance(x, (int, float)):
        return ("n", repr(float(x)))  # 1 and 1.0 are the same length
    return (type(x).__name__, repr(x))


_mean = {}


def meaning(text, folder):
    """The scene of a document, read afresh in its own folder: dict or None if it has none. JSON must be able to carry it."""
    key = (text, folder)
    if key not in _mean:
        if len(_mean) > 4000:
            _mean.clear()
        _mean[key] = _meaning(text, folder)
    return _mean[key]


def _meaning(text, folder):
    from pvtrace import engine
    from pvtrace.cli.parse import parse
    from pvtrace.engine.recorder import Heatmap
    try:
        spec = yaml.safe_load(io.StringIO(text))
        if not isinstance(spec, dict):
            return None
        path = os.path.join(folder, ".fresh.yml")
        with open(path, "w", newline="") as f:
            f.write(text)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                scene = parse(path)
        finally:
            os.unlink(path)
        comp = engine.compile_scene(scene)
    except Exception:
        return None
    todo, world, lights, recs = [(scene.root, np.eye(4))], {}, {}, {}
    geoms = {}
    auto_on = spec["nodes"]
    explicit = set(spec.get("recorders") or {})
    parents = {}
    while todo:
        n, m = todo.pop()
        if n is not scene.root:  # places are told in the frame of the world
            m = m @ np.asarray(n.pose, float)
        world[n.name] = m
        parents[n.name] = None if n.parent is None else n.parent.name
        todo += [(c, m) for c in n.children]
        ns = auto_on[n.name]
        if n.geometry is not None:
            for kind, fields in (("box", ("size",)), ("sphere", ("radius",)), ("cylinder", ("length", "radius"))):
                if kind in ns:
                    v = []
                    for f in fields:
                        v += ns[kind][f] if isinstance(ns[kind][f], list) else [ns[kind][f]]
                    geoms[n.name] = (kind, v, float(ns[kind]["material"]["refractive-index"]))
        if n.light is not None:
            lights[n.name] = True
        for r in getattr(n, "recorders", []):
            hs = []
            for h in r.histograms:
                if isinstance(h, Heatmap):
                    hs.append(("heatmap", h.a.prop, h.b.prop, (h.a.start, h.a.stop, h.a.bins), (h.b.start, h.b.stop, h.b.bins)))
                else:
                    hs.append(("hist", h.prop, (h.start, h.stop, h.bins)))
            recs[r.name] = dict(node=n.name, event=r.event, facet=None if r.facet is None else tuple(r.facet), atol=r.atol, histograms=sorted(hs), auto=r.name not in explicit)
    try:
        json.dumps([m.tolist() for m in world.values()] + [spec, {k: dict(v) for k, v in recs.items()}, geoms], allow_nan=False, default=str)
    except ValueError:
        return dict(unspeakable=True)  # a scene that cannot be told to the page
    return dict(spec=spec, world=world, geoms=geoms, lights=lights, recs=recs, parents=parents, scene=scene, comp=comp)


def told(payload, m):
    """Does the scene payload describe meaning `m`? None or what differs."""
    nodes = {n["name"]: n for n in payload["nodes"]}
    if len(nodes) != len(payload["nodes"]) or set(nodes) != set(m["geoms"]):
        return f"nodes {sorted(nodes)} told, document has {sorted(m['geoms'])}"
    def matrix(x):
        return np.array(x, float).reshape(4, 4).T
    for k, (kind, v, n) in m["geoms"].items():
        t = nodes[k]
        if t["type"] != kind or list(t["params"])[:len(v)] != [float(a) for a in v]:
            return f"node {k} told as {t['type']} {t['params']}, document says {kind} {v}"
        if abs(t["refractive_index"] - n) > 1e-12:
            return f"node {k} told with refractive index {t['refractive_index']}, document says {n}"
        if not np.allclose(matrix(t["matrix"]), m["world"][k], rtol=0, atol=1e-9):
            return f"node {k} told at {t['matrix']}, document puts it at {m['world'][k].tolist()}"
        if bool(t["root"]) != (k == "world"):
            return f"node {k}: root flag {t['root']}"
        if canon(t["spec"]) != canon(m["spec"]["nodes"][k]):
            return f"node {k} told with spec {t['spec']}"
    lights = {n["name"]: n for n in payload["lights"]}
    if len(lights) != len(payload["lights"]) or set(lights) != set(m["lights"]):
        return f"lights {sorted(lights)} told, document has {sorted(m['lights'])}"
    for k, t in lights.items():
        if not np.allclose(matrix(t["matrix"]), m["world"][k], rtol=0, atol=1e-9):
            return f"light {k} told at {t['matrix']}, document puts it at {m['world'][k].tolist()}"
        if canon(t["spec"]) != canon(m["spec"]["nodes"][k]):
            return f"light {k} told with spec {t['spec']}"
    recs = {r["name"]: r for r in payload["recorders"]}
    if len(recs) != len(payload["recorders"]) or set(recs) != set(m["recs"]):
        return f"recorders {sorted(recs)} told, document has {sorted(m['recs'])}"
    for k, r in m["recs"].items():
        t = recs[k]
        hs = []
        for h in t["histograms"]:
            if h["kind"] == "heatmap":
                hs.append(("heatmap", h["prop_a"], h["prop_b"], tuple(h["range_a"]), tuple(h["range_b"])))
            else:
                hs.append(("hist", h["prop"], tuple(h["range"])))
        got = dict(node=t["node"], event=t["event"], facet=None if t["facet"] is None else tuple(t["facet"]), histograms=sorted(hs), auto=bool(t["auto"]))
        want = {a: r[a] for a in got}
        if got != want:
            return f"recorder {k} told as {got}, document says {want}"
    if canon(payload["spec"]) != canon(m["spec"]):
        return "the specification told is not the document's"
    return None


RUN = dict(rays=24, seed=5)
_tally = {}


def tally(m, text, folder):
    """Recorder tallies of the document's scene, from the engine itself."""
    from pvtrace import engine
    key = (text, folder)
    if key not in _tally:
        if len(_tally) > 4000:
            _tally.clear()
        try:
            np.random.seed(7)
            d = engine.simulate(m["scene"], RUN["rays"], seed=RUN["seed"])
            dd = d.data
            comp = m["comp"]
            _tally[key] = {s.name: (int(dd["rec_distinct"][i]), int(dd["rec_crossings"][i])) for i, s in enumerate(comp.recorder_specs)}, int(np.sum(dd["rec_bins"]))
        except Exception as e:
            _tally[key] = e
    return _tally[key]


def studio_run(server):
    """(tallies, binned) of a run of the running scene, or the error the page gets."""
    async def go():
        s = server.session()
        np.random.seed(7)
        s.push(dict(cmd="run", bundle=64, **RUN))
        for _ in range(3000):
            await asyncio.sleep(0.002)
            if s.outbox and s.outbox[-1]["type"] in ("done", "error"):
                break
        s.disconnect()
        await asyncio.wait([s.task], timeout=5)
        return s.outbox
    out = server.loop.run_until_complete(go())
    bundles = [m for m in out if m["type"] == "bundle"]
    if not bundles or out[-1]["type"] != "done":
        return [m.get("type") for m in out]
    last = bundles[-1]["recorders"]
    return {k: (v["rays"], v["crossings"]) for k, v in last.items()}, sum(int(np.sum(h["values"])) for v in last.values() for h in v["histograms"])


# ---- the reference model of edits -----------------------------------------------------------

class Refuse(Exception):
    pass


def own_text(data):
    return yaml.safe_dump(data, sort_keys=False, allow_unicode=True)


def put(data, path, value):
    t = data
    for k in path[:-1]:
        if isinstance(t, dict):
            if isinstance(k, list):
                raise Refuse
            t = t.setdefault(k, {})
        elif isinstance(t, list) and isinstance(k, int) and not isinstance(k, bool) and 0 <= k < len(t):
            t = t[k]
        else:
            raise Refuse
    k = path[-1]
    if isinstance(t, dict) and not isinstance(k, list):
        t[k] = value
    elif isinstance(t, list) and isinstance(k, int) and not isinstance(k, bool) and 0 <= k < len(t):
        t[k] = value
    else:
        raise Refuse


FACES = {"top": (0, 0, 1), "bottom": (0, 0, -1), "east": (1, 0, 0), "west": (-1, 0, 0), "north": (0, 1, 0), "south": (0, -1, 0)}


def model(data, op, m):
    """Judge of an edit: a function(new data, new meaning) -> None or complaint, and the data the edit asks for where the
    request determines them. Raises Refuse."""
    kind = op.get("op")
    new = copy.deepcopy(data)
    if not isinstance(new, dict):
        raise Refuse

    def exactly(want):
        def judge(got, gm):
            return None if canon(got) == canon(want) else f"the document now says {got}, the edit asks for {want}"
        return judge, want

    def need(cond):
        if not cond:
            raise Refuse

    try:
        nodes = new["nodes"]
        if kind == "set":
            need(isinstance(op["path"], list) and op["path"])
            put(new, op["path"], copy.deepcopy(op["value"]))
            return exactly(new)
        if kind == "move":
            need(m is not None and op["node"] in m["world"] and m["parents"][op["node"]] is not None)
            w = op["world_position"]
            need(isinstance(w, list) and len(w) == 3 and all(isinstance(v, (int, float)) and math.isfinite(v) for v in w))
            local = np.linalg.inv(m["world"][m["parents"][op["node"]]]) @ np.array(list(w) + [1.0])
            want = copy.deepcopy(new)
            want["nodes"][op["node"]]["location"] = [round(float(v), 6) + 0.0 for v in local[:3]]

            def judge(got, gm):
                at = got["nodes"][op["node"]].pop("location")
                rest = copy.deepcopy(data)
                rest["nodes"][op["node"]].pop("location", None)
                if canon(got) != canon(rest):
                    return f"moving {op['node']} changed other things: {got}"
                if not (isinstance(at, list) and len(at) == 3 and np.allclose(np.array(at, float), local[:3], rtol=1e-12, atol=1.01e-6)):
                    return f"moving {op['node']} to {w} puts it at {at} of its parent, that place is {local[:3].tolist()}"
                if gm and not np.allclose(gm["world"][op["node"]][:3, 3], w, rtol=1e-9, atol=4e-6):
                    return f"moving {op['node']} to {w} shows it at {gm['world'][op['node']][:3, 3].tolist()}"
                return None
            return judge, want
        if kind in ("add-node", "add-recorder", "add-component"):
            section = {"add-node": "nodes", "add-recorder": "recorders", "add-component": "components"}[kind]
            if kind == "add-node":
                need(op["kind"] in ("box", "sphere", "cylinder", "light"))
            if kind == "add-recorder":
                need(op["node"] in nodes)

            def judge(got, gm):
                have = got.get(section) or {}
                names = set(have) - set(data.get(section) or {})
                if len(names) != 1:
                    return f"{kind} added {sorted(names)}"
                name, = names
                item = have.pop(name)
                if section not in data and not have:
                    got.pop(section)
                if canon(got) != canon(data):
                    return f"{kind} changed other things: {got}"
                if kind == "add-node" and not (op["kind"] in item and item.get("parent", "world") == "world"):
                    return f"adding a {op['kind']} gave {item}"
                if kind == "add-recorder" and (item.get("node") != op["node"] or name in (m["recs"] if m else {})):
                    return f"adding a recorder to {op['node']} gave {name}: {item}"
                if kind == "add-component" and len(item) != 1:
                    return f"adding a component gave {item}"
                return None
            return judge, new
        if kind == "add-face-recorders":
            n = op["node"]
            need(n in nodes and "box" in nodes[n])
            have = data.get("recorders") or {}
            fresh = {f"{n}-{f}": v for f, v in FACES.items() if f"{n}-{f}" not in have}

            def judge(got, gm):
                recs = got.get("recorders") or {}
                added = set(recs) - set(have)
                if added != set(fresh):
                    return f"face recorders added {sorted(added)}, missing were {sorted(fresh)}"
                for k in added:
                    item = recs.pop(k)
                    if item.get("node") != n or tuple(item.get("facet", ())) != fresh[k]:
                        return f"face recorder {k} is {item}"
                if "recorders" not in data and not recs:
                    got.pop("recorders", None)
                return None if canon(got) == canon(data) or (not fresh and canon(dict(got, recorders={})) == canon(dict(data, recorders={}))) else f"face recorders changed other things: {got}"
            return judge, new
        if kind == "delete-component":
            del new["components"][op["component"]]
            for ns in nodes.values():
                for g in ("box", "sphere", "cylinder", "mesh"):
                    mat = ns.get(g, {}).get("material", {})
                    if op["component"] in (mat.get("components") or []):
                        mat["components"] = [c for c in mat["components"] if c != op["component"]]
            return exactly(new)
        if kind == "update-recorder":
            name, ch = op["recorder"], op["changes"]
            need(isinstance(ch, dict) and all(k in ("event", "facet", "atol") for k in ch))
            if name in (new.get("recorders") or {}):
                new["recorders"][name].update(copy.deepcopy(ch))
                return exactly(new)
            need(m is not None and name in m["recs"])
            old = m["recs"][name]
            want = dict(old, auto=False)
            for k, v in ch.items():
                want[k] = tuple(float(a) for a in v) if k == "facet" else v

            def judge(got, gm):
                item = (got.get("recorders") or {}).pop(name, None)
                if item is None:
                    return f"editing the automatic recorder {name} left it automatic"
                if "recorders" not in data and not got["recorders"]:
                    got.pop("recorders")
                if canon(got) != canon(data):
                    return f"editing {name} changed other things: {got}"
                if gm and gm["recs"].get(name) != want:
                    return f"editing {name} with {ch} made it {gm['recs'].get(name)}, it was {old}"
                others = {k: v for k, v in gm["recs"].items() if k != name} if gm else {}
                if gm and others != {k: v for k, v in m["recs"].items() if k != name}:
                    return f"editing {name} changed other recorders"
                return None
            exp = copy.deepcopy(new)
            spec = dict(node=old["node"], event=old["event"], atol=old["atol"])
            if old["facet"] is not None:
                spec["facet"] = list(old["facet"])
            spec["histograms"] = {}
            for h in old["histograms"]:
                spec["histograms"]["position" if h[0] == "heatmap" else h[1]] = [h[1], h[2], list(h[3]), list(h[4])] if h[0] == "heatmap" else list(h[2])
            spec.update(ch)
            exp.setdefault("recorders", {})
            exp["recorders"] = dict(exp["recorders"] or {}, **{name: spec})
            return judge, exp
        if kind == "delete-recorder":
            need(op["recorder"] in (new.get("recorders") or {}))
            del new["recorders"][op["recorder"]]
            return exactly(new)
        if kind == "delete-node":
            del nodes[op["node"]]
            for k in list(new.get("recorders") or {}):
                if new["recorders"][k].get("node") == op["node"]:
                    del new["recorders"][k]
            return exactly(new)
    except (KeyError, TypeError, AttributeError, IndexError):
        raise Refuse
    raise Refuse


def dangling(data):
    """References to things the document does not have."""
    out = []
    nodes = data.get("nodes") or {}
    for k, ns in nodes.items():
        if k != "world" and ns.get("parent") is not None and ns["parent"] not in nodes:  # the world ignores its parent
            out.append(f"node {k}: parent {ns['parent']}")
        for g in ("box", "sphere", "cylinder"):
            for c in ((ns.get(g) or {}).get("material") or {}).get("components") or []:
                if c not in (data.get("components") or {}):
                    out.append(f"node {k}: component {c}")
    for k, r in (data.get("recorders") or {}).items():
        if r.get("node") not in nodes:
            out.append(f"recorder {k}: node {r.get('node')}")
    return out


# ---- edits of a document -----------------------------------------------------------------------

def edits(data, m, rich):
    """Every edit of the menu for this document."""
    if rich == "structure":
        return structure(data)
    E = []

    def s(*path, value):
        E.append(dict(op="set", path=list(path), value=value))
    nodes = data.get("nodes") if isinstance(data, dict) else None
    nodes = nodes if isinstance(nodes, dict) else {}
    comps = (data.get("components") or {}) if isinstance(data, dict) else {}
    recs = (data.get("recorders") or {}) if isinstance(data, dict) else {}
    shown = list(m["recs"]) if m and "recs" in m else list(recs)
    names = list(nodes)
    for k, ns in nodes.items():
        s("nodes", k, "location", value=[0.5, -0.25, 1e-05])
        if rich:
            s("nodes", k, "location", value=[0, 0, 0])
            s("nodes", k, "location", value=[1e-07, -2.5e-10, 123456.789])
            s("nodes", k, "location", value="here")
            s("nodes", k, "location", 1, value=0.75)
            s("nodes", k, "location", 3, value=0.75)
            s("nodes", k, "direction", value=[0.0, 0.6, 0.8])
            s("nodes", k, "direction", value=[0, 0, 0])
            s("nodes", k, "record", value=True)
            s("nodes", k, "record", value="on")
        s("nodes", k, "record", value=not ns.get("record", False))
        for p in names + ["nowhere"] if rich else names[1:2]:
            s("nodes", k, "parent", value=p)
        for g, fields in (("box", ("size",)), ("sphere", ("radius",)), ("cylinder", ("length", "radius"))):
            if g in ns:
                for f in fields:
                    s("nodes", k, g, f, value=[2, 2.5, 0.75] if f == "size" else 1.25)
                    if rich:
                        s("nodes", k, g, f, value=[1, 1] if f == "size" else -1)
                        s("nodes", k, g, f, value=None)
                        if f == "size":
                            s("nodes", k, g, f, 0, value=1.75)
                s("nodes", k, g, "material", "refractive-index", value=1.33)
                if rich:
                    s("nodes", k, g, "material", "refractive-index", value=0.5)
                    s("nodes", k, g, "colour", "hue", value=1)
                for cs in [[], list(comps), ["gone"], list(comps)[:1]] if rich else [list(comps)[::-1]]:
                    s("nodes", k, g, "material", "components", value=cs)
        if "light" in ns:
            s("nodes", k, "light", "wavelength", value=612.5)
            s("nodes", k, "light", "mask", "direction", "cone", "half-angle", value=33)
            if rich:
                s("nodes", k, "light", "wavelength", value="red")
                s("nodes", k, "light", "wavelength", "unit", value="nm")
        E.append(dict(op="move", node=k, world_position=[1, -2, 0.125]))
        if rich:
            E.append(dict(op="move", node=k, world_position=[1e-05, -2e-06, 0.0]))
            E += [dict(op="move", node=k, world_position=w) for w in ([1 / 3, 2 / 3, -1e-05], [1, 2], [1, 2, NAN], [1, INF, 2], ["a", 1, 2], "up")]
        E += [dict(op="add-recorder", node=k), dict(op="add-face-recorders", node=k), dict(op="delete-node", node=k)]
    for k, c in comps.items():
        kind = next(iter(c))
        if kind == "luminophore":
            s("components", k, kind, "absorption", "coefficient", value=1e-06)
            if not rich:
                continue
            s("components", k, kind, "emission", "quantum-yield", value=0.25)
            s("components", k, kind, "absorption", "spectrum", "file", value="glow.csv")
            s("components", k, kind, "absorption", "spectrum", "file", value="nope.csv")
        else:
            s("components", k, kind, "coefficient", value=0.75)
            if rich:
                s("components", k, kind, "coefficient", value=-1)
                s("components", k, kind, "coefficient", value=3e-05)
        E.append(dict(op="delete-component", component=k))
    for k, r in recs.items():
        for h, v in (r.get("histograms") or {}).items():
            if h == "position":
                s("recorders", k, "histograms", h, 2, 0, value=-0.5)
                s("recorders", k, "histograms", h, 0, value="y" if v[0] == "x" else "x")
            else:
                s("recorders", k, "histograms", h, 2, value=7)
                if rich:
                    s("recorders", k, "histograms", h, 2, value=0)
        s("recorders", k, "node", value=names[0])
        if rich:
            s("recorders", k, "node", value="nobody")
    for k in (shown if rich else list(dict.fromkeys(shown[:2] + shown[-2:]))):
        E.append(dict(op="update-recorder", recorder=k, changes={"event": "reflected"}))
        E.append(dict(op="delete-recorder", recorder=k))
        if rich:
            E += [dict(op="update-recorder", recorder=k, changes=c) for c in ({"facet": [0, 1, 0]}, {"atol": 1e-05}, {"event": "lost"}, {"event": "sung"}, {"node": "world"}, {}, {"facet": None},
                                                                            {"event": "entering", "facet": [0, 0, -1]}, {"event": "entering", "name": "x"})]
    if rich:
        E.append(dict(op="update-recorder", recorder="no-such", changes={"event": "reflected"}))
        E.append(dict(op="delete-recorder", recorder="no-such"))
    E += [dict(op="add-node", kind=k) for k in (("box", "sphere", "cylinder", "light", "cone") if rich else ("box", "light"))]
    E += [dict(op="add-component")]
    if rich:
        E += [dict(op="delete-component", component="gone"), dict(op="delete-node", node="gone"), dict(op="add-recorder", node="gone"), dict(op="add-face-recorders", node="gone")]
    s("version", value="2.0")
    if rich:
        for n in ("yes", "1e5", "12", "null", "plain", "a b"):
            s("nodes", n, value={"sphere": {"radius": 0.25, "material": {"refractive-index": 1.4}}})
            s("components", n, value={"absorber": {"coefficient": 2e-07}})
            s("recorders", n, value={"node": names[0] if names else "world", "event": "exit"})
        s("nodes", "baby", value={"parent": names[-1] if names else None, "location": [1e-08, 2, 3.0], "box": {"size": [1, 1, 1], "material": {"refractive-index": 1.4}}})
        for t in ("yes", "1e5", "~", "0x1F", "1_000", "12:30", "- x", "a: b", "#x", "", " pad", "multi\nline", "2020-01-01", "\u00e9\u2713"):
            s("nodes", "t", value={"parent": t, "sphere": {"radius": 1, "material": {"refractive-index": 1}}})
        E += [dict(op="move", node="gone", world_position=[0, 0, 0]), dict(op="vanish"), dict(), dict(op="set", path=[], value=1), dict(op="set", path=["version"]), dict(op="set", value=1),
              dict(op="move", node=names[-1] if names else "x"), dict(op="update-recorder", recorder="edge"), dict(op="delete-node"), dict(op="set", path=["nodes", "world", "sphere", "radius", "x"], value=1),
              dict(op="set", path=["nodes"], value={}), dict(op="set", path=["version", "major"], value=1), dict(op="set", path=["recorders"], value=None), dict(op="set", path=["components"], value={}),
              dict(op="add-node"), dict(op="add-node", kind=["box"]), dict(op="set", path=["nodes", "world", "sphere", "radius"], value=INF), dict(op="set", path=["nodes", "world", "sphere", "radius"], value=NAN)]
    out, seen = [], set()
    for e in E:
        k = json.dumps(e, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


TINY = """\
version: "1.0"
nodes:
  world: {sphere: {radius: 9.0, material: {refractive-index: 1.0}}}
  lamp: {location: [0, 0, 3], direction: [0, 0, -1], light: {wavelength: 555}}
"""


def structure(data):
    """Additions and deletions only."""
    E = [dict(op="add-node", kind="box"), dict(op="add-node", kind="light"), dict(op="add-component"), dict(op="add-recorder", node="world")]
    nodes = [k for k in data["nodes"] if k not in ("world", "lamp")]
    E += [dict(op="add-recorder", node=k) for k in nodes[:1] if "box" in data["nodes"][k]]
    E += [dict(op="delete-node", node=k) for k in nodes]
    E += [dict(op="delete-component", component=k) for k in data.get("components") or {}]
    E += [dict(op="delete-recorder", recorder=k) for k in data.get("recorders") or {}]
    return E


def comments(text):
    return sorted(c.strip() for c in re.findall(r"(?m)(?:^|\s)(#.*)$", text))


def value_at(data, path):
    for k in path:
        try:
            data = data[k]
        except Exception:
            return None
    return data


# ---- driving the application --------------------------------------------------------------------

class Bench:
    """One application on a scratch folder."""

    def __init__(self, root, text):
        from mc.asgi import Server
        self.root = root
        self.docs, self.cwd = os.path.join(root, "docs"), os.path.join(root, "cwd")
        write_folder(self.docs)
        write_folder(self.cwd, 3.0)  # same names, other contents
        os.makedirs(os.path.join(root, "up"))
        self.path = os.path.join(self.docs, "scene.yml")
        if text is not None:
            with open(self.path, "w", newline="") as f:
                f.write(text)
        os.chdir(self.cwd)
        from pvtrace.studio.server import create_app
        with contextlib.redirect_stdout(io.StringIO()):
            self.server = Server(create_app(self.path if text is not None else None))
        self.folder = self.docs if text is not None else self.cwd
        self.files = listing(root)

    def call(self, method, path, payload=None):
        raw = json.dumps(payload).encode() if payload is not None else None
        with contextlib.redirect_stdout(io.StringIO()):
            return self.server.call(method, path, raw=raw)

    def text(self):
        return self.call("GET", "/api/document")[1]["text"]

    def close(self):
        os.chdir("/")
        self.server.close()
        shutil.rmtree(self.root, ignore_errors=True)


def load(text):
    try:
        return yaml.safe_load(io.StringIO(text))
    except Exception:
        return None


def run_check(b, text, where):
    """The running scene simulates as the document's scene does."""
    m = meaning(text, b.folder)
    if not m or m.get("unspeakable") or not m["lights"]:
        return []
    want = tally(m, text, b.folder)
    if isinstance(want, Exception):
        return []
    got = studio_run(b.server)
    return [] if got == want else [(f"{where}", f"a run of the running scene tallies {got}, the document's scene {want}")]


def one(b, op, text, data, m):
    """Apply one edit at state `text`: (accepted text or None, problems)"""
    P = []
    tag = json.dumps(op)[:160]
    status, body = b.call("POST", "/api/patch", op)
    now = b.text()
    try:
        judge, want = model(data, op, m)
    except Refuse:
        judge, want = None, None
    if status >= 400 or not isinstance(body, dict) or "error" in body:
        if now != text:
            P.append((tag, f"refused (status {status}) but the document changed to {now!r}"))
        elif judge is not None:
            mean = meaning(own_text(want), b.folder)
            if mean and not mean.get("unspeakable") and status != 500:
                P.append((tag, f"a valid edit was refused: {str(body)[:160]}"))
        if status >= 500:
            P.append((tag, f"the edit crashed the request: {str(body)[:160]}"))
        return None, now, P
    if body.get("text") != now:
        P.append((tag, "the text returned is not the document"))
    got = load(now)
    gm = meaning(now, b.folder)
    if gm is None or gm.get("unspeakable"):
        P.append((tag, f"an edit to a document without a scene was accepted: {now!r}"))
        return now, now, P
    if judge is None:
        P.append((tag, f"accepted, but there is nothing valid it names; document now {got}"))
    else:
        w = judge(copy.deepcopy(got), gm)
        if w:
            P.append((tag, w))
    d = dangling(got)
    if d:
        P.append((tag, f"dangling references {d}"))
    t = told(body["scene"], gm)
    if t:
        P.append((tag, t))
    if op["op"].startswith("add-") or op["op"] == "move" or op["op"] == "set" and not isinstance(value_at(data, op["path"]), (dict, list)):
        lost = [c for c in comments(text) if c not in comments(now)]
        if lost and not (op["op"] == "move" and value_at(data, ["nodes", op["node"], "location"]) is not None):
            P.append((tag, f"comments lost: {lost}"))
    return now, now, P


def expand(job):
    """All edits of one document."""
    name, text, rich, k = job
    b = Bench(os.path.join(base.scratch(), f"s{k}-{os.getpid()}"), text)
    out, probs, n = [], [], 0
    try:
        if b.text() != text:
            probs.append(("load", f"the document served is not the file: {b.text()!r}"))
        data, m = load(text), meaning(text, b.folder)
        if m and m.get("unspeakable"):
            m = None
        history = []
        for op in edits(data, m, rich):
            new, now, P = one(b, op, text, data, m)
            n += 1
            history.append(op)
            for key, what in P:
                probs.append((key, what, dict(document=text, edit=op)))
            if new is not None and (base.THOROUGH or op["op"] != "set" or len(op["path"]) != 2 or op["path"][1] == "baby"):
                out.append(new)
            if now != text:
                status, body = b.call("PUT", "/api/document", {"text": text})
                n += 1
                if m is None:  # cannot return to a document without a scene
                    b.close()
                    b = Bench(os.path.join(base.scratch(), f"s{k}-{os.getpid()}-{n}"), text)
                elif status != 200:
                    probs.append(("put", f"the document {text!r} was refused: {body}", None))
                    break
                elif told(body["scene"], m):
                    probs.append(("put", told(body["scene"], m), dict(document=text, after=op)))
            elif b.text() != text:
                probs.append(("get", "the document changed by being read", None))
        for key, what in run_check(b, text, "after all edits"):
            probs.append((key, what, dict(document=text, edits=history)))
        left = listing(b.root)
        if left != b.files:
            diff = sorted(k for k in set(left) | set(b.files) if left.get(k) != b.files.get(k))
            probs.append(("files", f"editing left files changed: {diff}", dict(document=text)))
        n += run_lite(b, text, probs, m)
    finally:
        b.close()
    return name, out, probs, n


def run_lite(b, text, probs, m):
    """Save writes exactly the document, whatever was there."""
    status, body = b.call("POST", "/api/save")
    if status != 200 or "error" in (body or {"error": 1}):
        probs.append(("save", f"saving failed: {status} {body}", None))
    elif open(b.path, newline="").read() != text.replace("\r\n", os.linesep) and open(b.path, newline="").read() != text:
        probs.append(("save", f"the saved file is {open(b.path).read()!r}", dict(document=text)))
    left = listing(b.root)
    rel = os.path.relpath(b.path, b.root)
    diff = [k for k in set(left) | set(b.files) if left.get(k) != b.files.get(k) and k != rel]
    if diff:
        probs.append(("save", f"saving changed other files {diff}", dict(document=text)))
    return 1


# ---- sequences: loads, refused loads, edits, saves, uploads ------------------------------------------

NEWDATA = ",wavelength,value\n0,400,3.0\n1,500,0.25\n2,600,1.5\n"


def steps(full):
    S = [("put", d) for d in FINE_DOCS[:4]]
    bad = NOT_DOCS if full else NOT_DOCS[::4]
    S += [("put", d) for d in bad]
    S += [("patch", dict(op="set", path=["nodes", "world", "sphere", "radius"], value=11.5)), ("patch", dict(op="delete-node", node="slab")), ("patch", dict(op="delete-node", node="table")),
          ("patch", dict(op="delete-component", component="tint")), ("patch", dict(op="add-node", kind="light")), ("patch", dict(op="move", node="lamp", world_position=[1, 1, 4])),
          ("patch", dict(op="set", path=["components", "dye", "luminophore", "absorption", "spectrum", "file"], value="new.csv")),
          ("patch", dict(op="update-recorder", recorder="slab-top", changes={"event": "reflected"})), ("patch", dict(op="set", path=["nodes", "gone", "location"], value=[1, 2, 3])),
          ("save",), ("upload", "new.csv", NEWDATA), ("upload", "../up/new.csv", NEWDATA), ("upload", "abs.csv", NEWDATA), ("upload", "x.yml", "a: 1"), ("upload", "scene.yml", "gone"), ("upload", "", "x")]
    return S


def sequence(job):
    """One sequence of steps on one application, checked after every step."""
    start, seq, k = job
    b = Bench(os.path.join(base.scratch(), f"q{k}-{os.getpid()}"), start)
    probs = []
    try:
        text = start if start is not None else ""
        if b.text() != text:
            probs.append(("load", f"the document served is not the file: {b.text()!r}", None))
        files = dict(b.files)
        for i, st in enumerate(seq):
            tag = json.dumps(st)[:150]
            data, m = load(text), meaning(text, b.folder)
            if m and m.get("unspeakable"):
                m = None
            if st[0] == "put":
                mean = meaning(st[1], b.folder) if isinstance(st[1], str) else None
                status, body = b.call("PUT", "/api/document", {"text": st[1]} if st[1] is not None else {})
                ok = status < 400 and "error" not in body
                if ok != bool(mean and not mean.get("unspeakable")) and not (mean and mean.get("unspeakable") and status < 500):
                    probs.append((tag, f"loading a document gave status {status} {str(body)[:120]}, it {'has' if mean else 'has no'} scene", None))
                elif ok and told(body["scene"], mean):
                    probs.append((tag, told(body["scene"], mean), None))
                if status >= 500:
                    probs.append((tag, f"loading a document crashed the request: {str(body)[:120]}", None))
                if ok:
                    text = st[1]
            elif st[0] == "patch":
                new, now, P = one(b, st[1], text, data, m)
                probs += [(k_, w_, None) for k_, w_ in P]
                if new is not None:
                    text = new
            elif st[0] == "save":
                status, body = b.call("POST", "/api/save")
                if start is None:
                    if status < 400:
                        probs.append((tag, "saved without a file", None))
                else:
                    if status != 200:
                        probs.append((tag, f"saving gave {status} {body}", None))
                    files["docs/scene.yml"] = text.encode()
            elif st[0] == "upload":
                status, body = b.call("POST", "/api/upload", {"name": st[1], "content": st[2]})
                name = os.path.basename(st[1])
                ok = start is not None and name.endswith(".csv")
                if (status < 400) != ok:
                    probs.append((tag, f"upload gave {status} {body}", None))
                if ok:
                    files["docs/" + name] = st[2].encode()
                    _mean.clear()
                    _tally.clear()
            if b.text() != text:
                probs.append((tag, f"after {seq[:i + 1]} the document is {b.text()!r}", None))
                text = b.text()
            left = listing(b.root)
            if left != files:
                diff = sorted(k_ for k_ in set(left) | set(files) if left.get(k_) != files.get(k_))
                probs.append((tag, f"after {json.dumps(seq[:i + 1])[:300]} files differ: {diff}", None))
                files = left
            if probs:
                break
        stale = any(s_[0] == "upload" and s_[1] == "abs.csv" for s_ in seq)  # the running scene was read before
        if not probs and not stale:
            probs += [(k_, w_, None) for k_, w_ in run_check(b, text, "sequence")]
    finally:
        b.close()
    return [(k_, w_, dict(start=start, steps=seq)) for k_, w_, _ in probs], len(seq)


def once_per_schema():
    """jsonschema checks the schema itself on every use: remember its verdict (a third of the time of every edit)."""
    import jsonschema
    cls = jsonschema.Draft7Validator
    plain, good = cls.check_schema, set()

    def check_schema(schema, *a, **k):
        key = json.dumps(schema, sort_keys=True)
        if key not in good:
            plain(schema, *a, **k)
            good.add(key)
    cls.check_schema = check_schema
    if yaml.__with_libyaml__:  # the same language, read by libyaml
        yaml.SafeLoader, yaml.Loader = yaml.CSafeLoader, yaml.CLoader


def search(c, front, seen, menus, label):
    """Breadth-first over documents; documents which say the same are one state."""
    k = 0
    for d, menu in enumerate(menus):
        jobs = []
        for n, t in front:
            k += 1
            jobs.append((n, t, menu, k))
        nxt = []
        for j, r in zip(jobs, base.pmap(expand, jobs)):
            if base.is_exc(r):
                c.violation(f"{j[0]}:exception", r[1][-400:], dict(document=j[1]))
                continue
            n, out, probs, cnt = r
            c.cov["states"] += 1
            c.cov["transitions"] += cnt
            c.cov["traces_validated_against_impl"] += cnt
            for key, what, rep in [p if len(p) == 3 else p + (None,) for p in probs]:
                c.violation(f"{n}: {key}", what, rep)
            for t in out:
                key = canon(load(t))
                if key not in seen:
                    seen.add(key)
                    nxt.append((n, t))
        c.log(f"depth {d + 1}{label}: {len(jobs)} documents expanded, {len(nxt)} new documents")
        c.cov[f"documents_at_depth_{d + 1}{label}"] = len(nxt)
        if jobs:
            c.sample(dict(document=jobs[-1][1][-160:], edits_tried=len(edits(load(jobs[-1][1]), None, menu))))
        front = nxt
    c.cov["documents_not_expanded" + label] = len(front)


def main(c):
    warnings.simplefilter("ignore")
    from mc import kernel
    kernel.ensure()
    import pvtrace.studio.server  # noqa
    once_per_schema()
    starts = [("slab", SLAB), ("tree", TREE), ("dye", DYE), ("odd", ODD), ("broken", BROKEN)]
    seen = set()
    front = []
    for n, t in starts:
        seen.add(canon(load(t)))
        front.append((n, t))
    search(c, front, seen, [True, False] if not base.THOROUGH else [True, True, False], "")
    search(c, [("tiny", TINY)], {canon(load(TINY))}, ["structure"] * (8 if base.THOROUGH else 6), "_of_structure")
    # sequences
    S = steps(True)
    jobs = []
    L = steps(base.THOROUGH)
    for start in (SLAB, DYE, BROKEN, "", None, "just text", SLAB.replace("\n", "\r\n").replace("\r\n", "\n")):
        for a in S:
            jobs.append((start, (a,), len(jobs)))
    for start in (SLAB, BROKEN) + ((DYE, "", None) if base.THOROUGH else ()):
        for a in L:
            for b_ in L:
                jobs.append((start, (a, b_), len(jobs)))
    good = [("put", DYE), ("put", SLAB), ("put", NOT_DOCS[8]), ("put", NOT_DOCS[16]), ("patch", dict(op="delete-node", node="slab")), ("patch", dict(op="delete-component", component="tint")),
            ("patch", dict(op="set", path=["components", "dye", "luminophore", "absorption", "spectrum", "file"], value="new.csv")), ("save",), ("upload", "new.csv", NEWDATA)]
    for a in good:
        for b_ in good:
            for d_ in good:
                jobs.append((SLAB, (a, b_, d_), len(jobs)))
    for j, r in zip(jobs, base.pmap(sequence, jobs, chunksize=8)):
        if base.is_exc(r):
            c.violation("sequence:exception", r[1][-400:], dict(steps=j[1]))
            continue
        c.cov["transitions"] += r[1]
        c.cov["traces_validated_against_impl"] += r[1]
        c.add("sequences")
        for key, what, rep in r[0]:
            c.violation(f"sequence: {key}", what, rep)
    c.assumptions += ["anchors and aliases in documents, and the placement (not the survival) of comments, are not judged",
                      "documents whose scene needs non-finite numbers may be accepted or refused, but wholly"]
