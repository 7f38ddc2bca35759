"""C24: what the studio page displays. The real app.js runs on a small document object model; the messages of runs are those of the
real server. Every sequence, up to a depth, of runs, stops, messages, selections, display settings and changes of the document
is executed, and after every step everything on display is compared with what the latest run told."""
import itertools
import json
import os
import re
import time

from checks import c23
from mc import base

HEAD = """\
version: "1.0"
nodes:
  world: {box: {size: [20, 20, 20], material: {refractive-index: 1.0}}}
"""
LAMP = """\
  lamp: {location: [0.1, 0.2, 3], direction: [0, 0, -1], light: {wavelength: 555}}
  glow: {location: [0.4, 0.2, 4], direction: [0, 0, -1], light: {wavelength: 650}}
  dusk: {location: [-0.3, 0.4, 3.5], direction: [0, 0, -1], light: {wavelength: 455}}
components:
  ink: {absorber: {coefficient: 0.2}}
  haze: {scatterer: {coefficient: 4.0}}
recorders:
"""
SLAB = "  slab: {location: [0.1, 0.2, 0.3], box: {size: [2, 3, 1], material: {refractive-index: 1.5, components: [ink, haze]}}}\n"
BLOCK = "  block: {location: [0, 0, -2], box: {size: [3, 3, 1], material: {refractive-index: 1.2}}}\n"
TOP = "  top: {node: slab, event: escaping, facet: [0, 0, 1], histograms: {position: [x, y, [-1, 1, 3], [-1.5, 1.5, 2]], wavelength: [500, 600, 2]}}\n"
SWAP = "  top: {node: slab, event: escaping, facet: [0, 0, 1], histograms: {wavelength: [500, 600, 2], position: [y, x, [-1.5, 1.5, 2], [-1, 1, 3]]}}\n"
NEST = "  top: {node: slab, event: escaping, facet: [0, 0, 1], histograms: {position: [x, y, [-0.5, 1, 3], [-1.5, 0.5, 2]]}}\n"
OUT = "  out: {node: slab, event: escaping, histograms: {angle: [0, 1.6, 3], wavelength: [500, 600, 3]}}\n"
BACK = "  back: {node: slab, event: reflected, facet: [0, 0, 1], histograms: {position: [y, x, [-1.5, 1.5, 2], [-1, 1, 3]]}}\n"
WEST = "  west: {node: block, event: entering, facet: [0, 0, 1], histograms: {wavelength: [500, 600, 4]}}\n"
DOCS = [HEAD + SLAB + BLOCK + LAMP + TOP + OUT + BACK + WEST,
        HEAD + SLAB + LAMP + SWAP + OUT,
        HEAD + BLOCK + SLAB + LAMP + WEST + NEST]
FACES = []
for f, (u, v) in (([0, 0, 1], "xy"), ([0, 0, -1], "xy"), ([1, 0, 0], "yz"), ([-1, 0, 0], "yz"), ([0, 1, 0], "xz"), ([0, -1, 0], "xz")):
    half = dict(x=1, y=1.5, z=0.5)
    for a, b in ((u, v), (v, u)):
        for full in (1, 0.5):
            FACES.append(f"  r{len(FACES)}: {{node: slab, event: escaping, facet: {f}, histograms: {{position: [{a}, {b}, [{-half[a] * full}, {half[a]}, 3], [{-half[b]}, {half[b] * full}, 4]]}}}}\n")
SCENES = [HEAD + SLAB + LAMP + "".join(FACES[i:i + 4]) for i in range(0, len(FACES), 4)]
for pair in (["x", "z"], ["wavelength", "y"], ["z", "z"], ["angle", "wavelength"]):
    SCENES.append(HEAD + SLAB + LAMP + f"  odd: {{node: slab, event: escaping, facet: [0, 0, 1], histograms: {{position: [{pair[0]}, {pair[1]}, [0, 1, 2], [0, 1.5, 3]]}}}}\n" + OUT)
TEXTS = ["500", "1", "1e3", " 70 ", "0", "-4", "", "abc", "1,000", "2.5", "0x10", "007", "1e400"]


class Oracle(c23.Oracle):
    def ask(self, q):
        if "run" not in q:
            return super().ask(q)
        path = os.path.join(self.dir, "run.yml")
        with open(path, "w") as f:
            f.write(q["run"])
        s = self.Server(self.create_app(path))
        try:
            if s.call("PUT", "/api/document", {"text": q["run"]})[0] != 200:
                return []
            w = s.session()
            w.push(dict(cmd="run", rays=q["rays"], bundle=q["bundle"], seed=q["seed"], record_every=q["every"], max_paths=q["paths"]))
            import asyncio

            async def wait():
                for _ in range(3000):
                    if any(m["type"] in ("done", "error") for m in w.outbox):
                        return
                    await asyncio.sleep(0.002)
            s.loop.run_until_complete(wait())
            out = list(w.outbox)
            w.task.cancel()
            s.loop.run_until_complete(asyncio.gather(w.task, return_exceptions=True))
            return out
        finally:
            s.close()


def explore(job):
    if c23._node is None:
        c23.node("view.mjs")
        c23._node = (c23._node[0], Oracle())
    t = time.time()
    job, d = c23.talk(job)
    d["stats"]["s"] = time.time() - t
    return job, d


SHOW = ["run", "stop", "message", "document 1", "document 0", "to recorders", "next", "lose"]
PICK = ["message", "to recorders", "next", "to view", "contrast", "document 1", "document 2", "run"]
LAYERS = ["layer all", "layer reflected", "layer escaping", "isolate slab", "isolate block", "isolate ", "document 0", "document 1", "on face", "next", "reload"]
SETTINGS = ["opacity", "world", "grid", "pane", "reload", "to recorders", "on face", "next", "to view", "document 1", "isolate slab", "layer all"]
FAMILIES = [
    ("messages", SHOW, 5, 7, []),
    ("displays", PICK, 4, 6, [["segment", "recorders"], ["run", 2]]),
    ("layers", LAYERS, 4, 5, [["segment", "recorders"]]),
    ("settings", SETTINGS, 4, 5, [["segment", "view"]]),
]


def main(c):
    c23.vendor()
    jobs = []
    for name, actions, quick, thorough, setup in FAMILIES:
        for first in itertools.product(actions, repeat=2):
            jobs.append(dict(family=name, docs=DOCS, first=list(first), depth=thorough if base.THOROUGH else quick, actions=actions, setup=setup))
    for s in SCENES:
        jobs.append(dict(family="faces", docs=[s], first=["run"], depth=6, actions=["message", "next"], setup=[["segment", "recorders"]], rays=400))
    for first in itertools.product(["run", "document 1", "to recorders"], repeat=2):
        jobs.append(dict(family="many paths", docs=DOCS[:2], first=["run", *first, "run"], depth=4, actions=[], rays=600, bundle=150, every=1, paths=200, drain=True))
    layers = ["layer all", "layer escaping", "layer reflected", "layer entering"]
    for k, l in enumerate(layers):
        for doc in DOCS:
            for iso in ("isolate slab", "isolate block", None):
                jobs.append(dict(family="picking", docs=[doc], grid=12 if base.THOROUGH else 40, setups=[[l] + [iso] * (iso is not None)]))
    jobs.append(dict(family="entries", docs=DOCS[:1], texts=TEXTS))
    n, spent = {}, {}
    for r in base.pmap(explore, jobs):
        if base.is_exc(r):
            c.violation("explorer", r[1][-1500:], {})
            continue
        job, d = r
        s = d["stats"]
        n[job["family"]] = n.get(job["family"], 0) + s["executions"]
        spent[job["family"]] = round(spent.get(job["family"], 0) + s["s"], 1)
        c.add("states", s["executions"])
        c.add("transitions", s["steps"])
        c.add("traces_validated_against_impl", s["executions"])
        if d.get("crash"):
            c.violation(job["family"] + ": explorer", d["crash"], job)
        for p, w in d["found"].items():
            c.violation(job["family"] + ": " + re.sub(r"[\d.]+", "#", p)[:120], f"{p}: after {w['trace']}", dict(job=job, **w))
    c.log(f"executions {n}, process seconds {spent}")
    for k, v in n.items():
        c.cov["executions_" + k.replace(" ", "_")] = v
    c.sample(dict(family="messages", actions=SHOW, depth=FAMILIES[0][2]))
    c.sample(dict(faces=FACES[:2]))
    c.assumptions += ["the browser's document object model, canvas and editor as in mc/page", "messages of a run arrive in the order in which the server sends them, which C21 decides"]
