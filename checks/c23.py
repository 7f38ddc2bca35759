"""C23: the studio page. The real app.js runs on a small document object model with every request, reply, timer and socket in
the explorer's hands; the real server answers. Every order of user actions, requests being taken up, replies arriving and
timers firing is executed up to a depth; at rest the page must show what the server has, with nothing lost."""
import itertools
import json
import os
import re
import shutil
import subprocess
import time

from mc import base

D0 = """\
# a comment
version: "1.0"
nodes:
  slab:
    location: [0.1234567891, 0.2, 1.0e-07]
    box: {size: [2, 2, 1], material: {refractive-index: 1.5, components: [ink]}}
  world: {box: {size: [20, 20, 20], material: {refractive-index: 1.0}}}
  lamp: {location: [0.1, 0.2, 3], direction: [0, 0, -1], light: {wavelength: 555}}
components:
  ink: {absorber: {coefficient: 0.2}}
  haze: {scatterer: {coefficient: 2.0}}
recorders:
  top: {node: slab, event: escaping, facet: [0, 0, 1], histograms: {position: [x, y, [-1, 1, 3], [-1, 1, 2]], wavelength: [500, 600, 2]}}
  out: {node: slab, event: escaping}
"""


class Oracle:
    """The real server, put into a state and asked one thing."""

    def __init__(self):
        from mc.asgi import Server
        from pvtrace.studio.server import create_app
        self.dir = os.path.join(base.scratch(), f"c23-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        os.chdir(self.dir)
        self.create_app, self.Server = create_app, Server

    def ask(self, q):
        path = os.path.join(self.dir, "scene.yml")
        with open(path, "w") as f:
            f.write(q["doc"])
        s = self.Server(self.create_app(path))
        try:
            if q["applied"]:
                s.call("PUT", "/api/document", {"text": q["doc"]})
            status, body = s.call(q["method"], q["url"], raw=(q["body"] or "").encode())
            doc = s.call("GET", "/api/document")[1]["text"]
            applied = q["applied"] or (status == 200 and q["method"] != "GET" and q["url"] in ("/api/document", "/api/patch"))
            if q["url"] == "/api/save" and status == 200:
                with open(path) as f:
                    if f.read() != doc:
                        doc = doc  # saving another text than the document's is C20's
            return dict(status=status, body=body, doc=doc, applied=applied)
        finally:
            s.close()


_node = None


def vendor():
    d = os.path.join(base.scratch(), "vendor")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(base.REPO, "pvtrace/studio/static/vendor/three.module.js"), os.path.join(d, "three.module.mjs"))
    return d


def node(script):
    global _node
    if _node is None:
        env = dict(os.environ, PVT_REPO=base.REPO, PAGE_VENDOR=os.path.join(base.scratch(), "vendor"))
        p = subprocess.Popen(["node"] + os.environ.get("NODE_FLAGS", "").split() + ["--max-old-space-size=2000", os.path.join(base.VERIF, "mc/page", script)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        _node = (p, Oracle())
    return _node


def talk(job):
    p, oracle = _node
    t = time.time()
    send(p, job)
    while True:
        line = p.stdout.readline()
        if not line:
            raise RuntimeError("the page's process ended")
        m = json.loads(line)
        if "ask" in m:
            send(p, oracle.ask(m["ask"]))
        else:
            m["done"]["stats"]["s"] = time.time() - t
            return job, m["done"]


def explore(job):
    node("explore.mjs")
    return talk(job)


def send(p, m):
    p.stdin.write((json.dumps(m) + "\n").encode())
    p.stdin.flush()


EDIT = ["type", "break", "mend", "apply", "save", "move", "size", "index", "record", "delete", "add", "next"]
FAMILIES = {
    # name: (actions, depth, options)
    "edits": (EDIT, 3, dict(setup=[["pick", "slab"]], slack=2)),
    "reactive": (["type", "break", "mend", "apply", "move", "index", "size", "attach"], 3, dict(setup=[["pick", "slab"]], reactive=True, slack=3)),
    "opening": (["type", "move", "apply", "save", "run", "to components", "lose"], 2, dict(early=True, slack=4)),
    "gizmo": (["grab", "pull", "back", "drop", "move", "type", "apply"], 5, dict(setup=[["pick", "slab"]], slack=2)),
    "real time": (["grab", "pull", "back", "drop", "type", "apply"], 5, dict(setup=[["pick", "slab"]], realtime=True, slack=2)),
    "recorders": (["event", "delete", "next", "to nodes", "type", "run", "stop"], 3, dict(setup=[["segment", "recorders"]], slack=2)),
    "components": (["add", "delete", "next", "type", "apply", "to nodes", "attach", "detach"], 3, dict(setup=[["segment", "components"]], slack=2)),
    "runs": (["run", "stop", "lose", "move", "reactive", "apply"], 3, dict(setup=[["pick", "slab"]], slack=2)),
}
DEEP = {"edits": 4, "reactive": 4, "opening": 3, "gizmo": 6, "real time": 6, "recorders": 4, "components": 4, "runs": 5}


def main(c):
    vendor()
    jobs = []
    for name, (actions, depth, options) in FAMILIES.items():
        d = DEEP[name] if base.THOROUGH else depth
        for first in itertools.product(actions, repeat=min(2, d)):
            if name == "edits" and not base.THOROUGH:
                options = dict(options, slack=1)
            if name in ("gizmo", "real time") and first[0] != "grab":
                continue
            jobs.append(dict(family=name, doc=D0, first=list(first), depth=d, actions=actions, options=options, cap=200000))
    order = {n: i for i, n in enumerate(["edits", "components", "reactive"])}
    jobs.sort(key=lambda j: order.get(j["family"], 9))
    n, spent = {}, {}
    for r in base.pmap(explore, jobs):
        if base.is_exc(r):
            c.violation("explorer", r[1][-1500:], {})
            continue
        job, d = r
        s = d["stats"]
        spent[job["family"]] = round(spent.get(job["family"], 0) + s["s"])
        n[job["family"]] = n.get(job["family"], 0) + s["executions"]
        c.add("states", s["executions"])
        c.add("transitions", s["user"] + s["env"])
        c.add("traces_validated_against_impl", s["executions"])
        if d.get("crash"):
            c.violation(job["family"] + ": explorer", d["crash"], job)
        for p, w in d["found"].items():
            c.violation(job["family"] + ": " + re.sub(r"[\d.]+", "#", p)[:120], f"{p}: after {w['trace']}", dict(job=job, **w))
    c.log(f"executions {n}, process seconds {spent}")
    for k, v in n.items():
        c.cov["executions_" + k.replace(" ", "_")] = v
