"""C21: studio sessions. The real websocket endpoint is driven with every interleaving, up to a depth, of client commands
(run, bad run, stop, disconnect), completions of the engine's bundles (jobs of a controlled executor finish when the
explorer says), edits of the document and slow deliveries; what the client receives is parsed into runs and every
progress message is compared with the engine's result for the photons traced so far."""
import asyncio
import concurrent.futures as futures
import contextlib
import io
import itertools
import json
import math
import os
import warnings

import numpy as np

from mc import base

D0 = """\
version: "1.0"
nodes:
  world: {sphere: {radius: 10.0, material: {refractive-index: 1.0}}}
  slab:
    box: {size: [2, 2, 1], material: {refractive-index: 1.5, components: [haze, ink]}}
  lamp: {location: [0.1, 0.2, 3], direction: [0, 0, -1], light: {wavelength: 555}}
components:
  haze: {scatterer: {coefficient: 2.0}}
  ink: {absorber: {coefficient: 0.2}}
recorders:
  out: {node: slab, event: escaping, histograms: {wavelength: [500, 600, 2], angle: [0, 1.6, 3], position: [x, y, [-1, 1, 3], [-1, 1, 2]]}}
  in: {node: slab, event: entering}
  lost: {node: slab, event: lost, histograms: {pathlength: [0, 10, 4]}}
"""
D1 = D0.replace("[2, 2, 1]", "[3, 2, 0.5]").replace("  in: {node", "  first: {node: world, event: exit, histograms: {z: [-10, 10, 5]}}\n  in: {node").replace("555", "612")
DARK = D0[:D0.index("  lamp")] + D0[D0.index("\ncomponents:") + 1:]
DOCS = [D0, D1, DARK]
BUNDLE = 2
_ref = {}


def reference(v, seed, n):
    """Tallies of the first n photons of a run on document v (engine itself, in one go)."""
    key = (v, seed, n)
    if key not in _ref:
        from pvtrace import engine
        if ("scene", v) not in _ref:
            from pvtrace.cli.parse import parse
            p = os.path.join(base.scratch(), f"c21-{os.getpid()}-{v}.yml")
            with open(p, "w") as f:
                f.write(DOCS[v])
            _ref[("scene", v)] = parse(p)
        sc = _ref[("scene", v)]
        if n == 0:
            return None
        res = engine.simulate(sc, n, seed=seed, workers=1)
        comp, d = engine.compile_scene(sc), res.data
        from pvtrace.engine.recorder import Heatmap
        out = {}
        for r, s in enumerate(comp.recorder_specs):
            hs = []
            for h, hist in enumerate(s.histograms):
                o = int(comp.hist_offset[comp.rec_hist_start[r] + h])
                k = hist.a.bins * hist.b.bins if isinstance(hist, Heatmap) else hist.bins
                hs.append([int(b) for b in d["rec_bins"][o:o + k]])
            m = max(int(d["rec_distinct"][r]), 1)
            out[s.name] = dict(rays=int(d["rec_distinct"][r]), crossings=int(d["rec_crossings"][r]), histograms=hs,
                               mean_wavelength=float(d["rec_sums"][r, 0, 0] / m), mean_angle=float(d["rec_sums"][r, 1, 0] / m))
        paths = []
        for i in range(n):
            k = int(d["counts"][i])
            b = i * res.max_events
            paths.append((np.asarray(d["position"][b:b + k]), np.asarray(d["wavelength"][b:b + k])))
        _ref[key] = out, paths
    return _ref[key]


def rnd(xs):
    return [round(float(x), 9) + 0.0 for x in xs]


def edges(a, b, n):
    return rnd(a + (b - a) * i / n for i in range(n + 1))


def meta(v):
    """What a run on document v announces about its recorders."""
    if v == 2:
        d = __import__("yaml").safe_load(DARK)
    else:
        d = __import__("yaml").safe_load(DOCS[v])
    out = {}
    for k, r in d["recorders"].items():
        hs = []
        for p, h in (r.get("histograms") or {}).items():
            hs.append(("heatmap", h[0], h[1], edges(*h[2]), edges(*h[3])) if p == "position" else ("hist", p, edges(*h)))
        out[k] = (r["event"], r["node"], sorted(map(str, hs)))
    return out


def told_meta(m):
    out = {}
    for k, r in m.items():
        hs = [("heatmap", h["prop_a"], h["prop_b"], rnd(h["edges_a"]), rnd(h["edges_b"])) if h["kind"] == "heatmap" else ("hist", h["prop"], rnd(h["edges"])) for h in r["histograms"]]
        out[k] = (r["event"], r["node"], sorted(map(str, hs)))
    return out


class Executor(futures.ThreadPoolExecutor):
    """Jobs which take as long as the explorer wants. They count as started at once."""

    def __init__(self):
        super().__init__(1)
        self.jobs = []

    def submit(self, fn, /, *args, **kw):
        f = futures.Future()
        f.set_running_or_notify_cancel()
        self.jobs.append((f, fn, args, kw))
        return f

    def complete(self, i=0):
        f, fn, args, kw = self.jobs.pop(i)
        try:
            f.set_result(fn(*args, **kw))
        except BaseException as e:  # noqa
            f.set_exception(e)


class Client:
    """One session, with its history of commands and messages in order."""

    def __init__(self, world):
        self.world = world
        self.s = world.server.session()
        self.log = []           # ("run", params, version) / ("stop",) / ("bye",) / ("done job",) / ("edit", v) / message dicts
        self.runs = 0
        self.gate = None
        self.seen = 0

    def collect(self):
        for m in self.s.outbox[self.seen:]:
            self.log.append(m)
        self.seen = len(self.s.outbox)


BAD = {"rays text": dict(rays="many"), "rays none": dict(rays=None), "rays list": dict(rays=[3]), "bundle 0": dict(bundle=0), "bundle negative": dict(bundle=-2), "bundle text": dict(bundle="x"),
       "seed text": dict(seed="x"), "record text": dict(record_every="x"), "record negative": dict(record_every=-1), "paths none": dict(max_paths=None), "rays negative": dict(rays=-3),
       "rays 0": dict(rays=0), "rays nan": dict(rays=float("nan")), "record 0": dict(record_every=0), "paths 0": dict(max_paths=0), "paths negative": dict(max_paths=-1), "no seed": dict(seed=None)}
HARMLESS = {"rays 0": 0, "rays negative": 0, "record 0": None, "paths 0": None, "paths negative": None, "no seed": None}


class World:
    """The application, reused by many executions."""

    def __init__(self):
        from mc.asgi import Server
        d = os.path.join(base.scratch(), f"c21-{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        self.path = os.path.join(d, "scene.yml")
        with open(self.path, "w") as f:
            f.write(D0)
        from pvtrace.studio.server import create_app
        self.server = Server(create_app(self.path))
        self.loop = self.server.loop
        self.loop.set_exception_handler(lambda *a: None)
        self.version = 0
        self.ex = None

    async def settle(self):
        for _ in range(400):
            for _ in range(6):
                await asyncio.sleep(0)
            if not self.loop._ready:
                if not any(not h.cancelled() for h in self.loop._scheduled):
                    return
                await asyncio.sleep(0.005)  # somebody waits for the clock

    async def put(self, v):
        text = DOCS[v] if isinstance(v, int) else v
        status, _ = await self.server.acall("PUT", "/api/document", {"text": text})
        return status

    def execute(self, actions, gated=False):
        return self.loop.run_until_complete(self._execute(actions, gated))

    async def _execute(self, actions, gated):
        if self.version != 0:
            await self.put(0)
        self.version = 0
        self.ex = Executor()
        self.loop.set_default_executor(self.ex)
        before = asyncio.all_tasks()
        clients = [Client(self)]
        probs = []
        if gated:
            hold(clients[0])
        await self.settle()
        for a in actions:
            kind = a[0]
            who = clients[a[-1]] if kind in ("run", "bad", "stop", "bye", "deliver", "odd") else None
            if kind == "client":
                clients.append(Client(self))
            elif kind == "run":
                who.runs += 1
                p = dict(cmd="run", rays=3 + who.runs + a[1], bundle=BUNDLE, seed=10 * who.runs + a[1], record_every=1 if who.runs == 1 else 2, max_paths=3 if who.runs == 1 else 2)
                who.log.append(("run", p, self.version))
                who.s.push(p)
            elif kind == "bad":
                who.runs += 1
                p = dict(dict(cmd="run", rays=3 + who.runs, bundle=BUNDLE, seed=10 * who.runs, record_every=1), **BAD[a[1]])
                who.log.append(("bad", p, self.version, a[1]))
                who.s.push(p)
            elif kind == "odd":
                who.s.push(a[1])
            elif kind == "stop":
                who.log.append(("stop",))
                who.s.push(dict(cmd="stop"))
            elif kind == "bye":
                who.log.append(("bye", len(self.ex.jobs)))
                who.s.disconnect()
                if who.gate:
                    who.gate.set()
            elif kind == "job":
                if a[1] < len(self.ex.jobs):
                    self.ex.complete(a[1])
                    for c in clients:
                        c.log.append(("done job",))
            elif kind == "edit":
                v = a[1]
                status = await self.put(v)
                if isinstance(v, int):
                    if status != 200:
                        probs.append(f"an edit was refused during a run: status {status}")
                    self.version = v
                    for c in clients:
                        c.log.append(("edit", v))
                elif status == 200:
                    probs.append("an invalid document was accepted during a run")
            elif kind == "deliver":
                if who.gate:
                    who.gate.set()
                    who.gate = None
            await self.settle()
            for c in clients:
                c.collect()
        for c in clients:
            if c.gate:
                c.gate.set()
                c.gate = None
        await self.settle()
        await self.drain(clients, probs)
        # a run after all that
        if self.version == 2:
            await self.put(0)
            self.version = 0
            for c in clients:
                c.log.append(("edit", 0))
        if all(c.s.closed for c in clients):
            clients.append(Client(self))
            await self.settle()
        for c in clients:
            if not c.s.closed:
                c.runs += 1
                p = dict(cmd="run", rays=20 + c.runs, bundle=15, seed=77, record_every=2, max_paths=2)
                c.log.append(("run", p, self.version, "last"))
                c.s.push(p)
                await self.settle()
                await self.drain(clients, probs)
        for c in clients:
            if not c.s.closed:
                c.s.disconnect()
        await self.settle()
        await self.drain(clients, probs)
        left = [t for t in asyncio.all_tasks() if t not in before and t is not asyncio.current_task()]
        if left:
            for _ in range(20):
                await self.settle()
            left = [t for t in left if not t.done()]
            if left:
                probs.append(f"{len(left)} tasks remain after the client has gone")
                for t in left:
                    t.cancel()
                await self.settle()
        for i, c in enumerate(clients):
            for w in judge(c.log):
                probs.append(f"session {i}: {w}" if len(clients) > 1 else w)
        return probs, [len(c.log) for c in clients]

    async def drain(self, clients, probs):
        for n in range(60):
            for _ in range(9):
                await self.settle()
                if not any(c.gate for c in clients):
                    break
                for c in clients:
                    if c.gate:
                        c.gate.set()
                        c.gate = None
            for c in clients:
                c.collect()
            if not self.ex.jobs:
                return
            self.ex.complete(0)
            for c in clients:
                c.log.append(("done job",))
        probs.append("the run does not end: it traces bundles for ever")
        # break it
        while self.ex.jobs:
            f = self.ex.jobs.pop()[0]
            f.set_exception(RuntimeError("given up"))
            await self.settle()


def hold(client):
    """Delay the announcement of each run until the explorer delivers it."""
    s = client.s
    inner = s.outbox

    class Box(list):
        pass

    client.gate = None
    s.task.cancel()
    # a session whose send waits
    from mc.asgi import Session

    class Slow(Session):
        def __init__(self, server, path):
            super().__init__(server, path)

    async def gate_send(message, send):
        if message["type"] == "websocket.send" and '"started"' in (message.get("text") or "") and not s2.closed:
            client.gate = asyncio.Event()
            await client.gate.wait()
        await send(message)

    app = client.world.server.app

    class Wrapped:
        loop = client.world.server.loop

        @staticmethod
        def app(scope, receive, send):
            return app(scope, receive, lambda m: gate_send(m, send))

    s2 = Session(Wrapped, "/ws")
    client.s = s2


def judge(log):
    """What the client may have received."""
    out = []
    runs = []        # commands
    open_ = None
    version = 0
    versions = []
    gone = False
    for i, e in enumerate(log):
        if isinstance(e, tuple):
            if e[0] in ("run", "bad"):
                for r in runs:
                    r["stopped"] = r["stopped"] if r["stopped"] is not None else i
                runs.append(dict(p=e[1], v={e[2]}, stopped=None, started=False, ended=None, bad=e[0] == "bad", label=e[3] if len(e) > 3 else "", traced=0, jobs=0, after=0, npaths=0))
                version = e[2]
            elif e[0] == "edit":
                version = e[1]
                for r in runs:
                    if not r["started"]:
                        r["v"].add(version)
            elif e[0] in ("stop", "bye"):
                for r in runs:
                    r["stopped"] = r["stopped"] if r["stopped"] is not None else i
                gone = gone or e[0] == "bye"
            continue
        t = e.get("type")
        if gone:
            continue
        if t == "started":
            if open_ is not None:
                out.append(f"a run of {e['total']} photons is announced before the end of the run of {open_['p']['rays']} photons was")
            wait = [r for r in runs if not r["started"]]
            r = next((r for r in wait if r["p"]["rays"] == e["total"]), None) or next((r for r in wait if r["bad"]), None)
            if r is None:
                out.append(f"a run of {e['total']} photons is announced, not asked for")
                open_ = None
                continue
            r["started"] = True
            open_ = r
            r["v"] = {v for v in r["v"] if meta(v) == told_meta(e["histograms"])}
            if not r["v"]:
                out.append("the announced recorders are those of no document current at the start of the run")
        elif t == "bundle":
            r = open_
            if r is None:
                out.append(f"progress ({e['traced']} of {e['total']}) is reported after the end of the run was announced")
                continue
            if e["total"] != r["p"]["rays"]:
                out.append(f"progress of a run of {e['total']} photons is reported in the run of {r['p']['rays']} photons")
                continue
            if not r["traced"] < e["traced"] <= e["total"]:
                out.append(f"progress goes from {r['traced']} to {e['traced']} of {e['total']}")
                continue
            if r["stopped"] is not None:
                r["after"] += 1
                if r["after"] > 1:
                    out.append("a stopped run goes on")
            if not (isinstance(e["rays_per_second"], (int, float)) and math.isfinite(e["rays_per_second"]) and e["rays_per_second"] >= 0):
                out.append(f"rays per second {e['rays_per_second']}")
            seed = r["p"].get("seed")
            if seed is not None:
                fit = set()
                why = ""
                for v in r["v"]:
                    want, hist = reference(v, seed, e["traced"])
                    w = differ(e["recorders"], want)
                    if w is None:
                        w = paths_differ(e["paths"], hist, r["traced"], e["traced"], r)
                    if w is None:
                        fit.add(v)
                    else:
                        why = w
                if r["v"] and not fit:
                    out.append(f"progress {e['traced']} of {e['total']}: {why}")
                else:
                    r["v"] = fit
            r["npaths"] += len(e["paths"])
            if r["npaths"] > max(r["p"].get("max_paths") if r["p"].get("max_paths") is not None else 200, 0):
                out.append(f"{r['npaths']} paths were sent, at most {r['p'].get('max_paths')} were asked for")
            r["traced"] = e["traced"]
            if r["npaths"] == 0 and not r["bad"] and r["v"] and e["traced"] >= 2 * BUNDLE:
                out.append("no path is shown, though every second photon's should be kept")
        elif t == "done":
            r = open_
            if r is None:
                out.append("an end is announced without a run")
                continue
            if r["stopped"] is None and r["traced"] != max(r["p"]["rays"], 0):
                out.append(f"the end of a run of {r['p']['rays']} photons is announced after {r['traced']}")
            r["ended"] = "done"
            open_ = None
        elif t == "error":
            if open_ is not None:
                open_["ended"] = "error"
                if not open_["bad"] and 2 not in open_["v"]:
                    out.append(f"the run of {open_['p']['rays']} photons ended in an error: {e.get('message')}")
                open_ = None
        else:
            out.append(f"unexpected message {e}")
    for r in runs:
        if gone:
            break
        if r["started"] and r["ended"] is None and not (r["bad"] and False):
            out.append(f"the end of the run of {r['p'].get('rays')} photons ({r['label']}) is never announced")
        free = not r["bad"] or r["label"] in HARMLESS
        if free and r["stopped"] is None and not r["started"] and 2 not in r["v"]:
            out.append(f"the run of {r['p'].get('rays')} photons ({r['label']}) never started")
    return out


def differ(got, want):
    if set(got) != set(want):
        return f"tallies of recorders {sorted(got)}, the scene has {sorted(want)}"
    for k, w in want.items():
        g = got[k]
        if g["rays"] != w["rays"] or g["crossings"] != w["crossings"] or [h["values"] for h in g["histograms"]] != w["histograms"]:
            return f"recorder {k} tells {g}, the photons traced so far give {w}"
        if abs(g["mean_wavelength"] - w["mean_wavelength"]) > 1e-6 or abs(g["mean_angle"] - w["mean_angle"]) > 1e-9:
            return f"recorder {k} tells means {g['mean_wavelength']}, {g['mean_angle']}, the photons traced so far give {w['mean_wavelength']}, {w['mean_angle']}"
    return None


def paths_differ(paths, hist, lo, hi, r):
    """Every path shown is a photon's of this bundle, whole, each at most once."""
    free = list(range(lo, hi))
    for p in paths:
        pts, nm = np.asarray(p["points"], float), np.asarray(p["wavelengths"], float)
        hit = next((i for i in free if len(hist[i][0]) == len(pts) and np.allclose(hist[i][0], pts, atol=1e-5) and np.allclose(hist[i][1], nm, atol=0.011)), None)
        if hit is None:
            return f"a path through {p['points']} is shown, no photon of the bundle took it"
        free.remove(hit)
    return None


# ---- exploration ---------------------------------------------------------------------------

def sequences(menu, L, limits=(), start=()):
    """All sequences of L actions in which counts respect `limits` {first item: max}."""
    limits = dict(limits)

    def rec(seq, counts):
        if len(seq) == L:
            yield tuple(seq)
            return
        for a in menu:
            k = a[0]
            if counts.get(k, 0) >= limits.get(k, 99):
                continue
            counts[k] = counts.get(k, 0) + 1
            seq.append(a)
            yield from rec(seq, counts)
            seq.pop()
            counts[k] -= 1
    yield from rec(list(start), {a[0]: sum(b[0] == a[0] for b in start) for a in start})


def useful(seq):
    """A completion with nothing running, or two idle stops, repeat shorter sequences."""
    running = False
    for a in seq:
        if a[0] in ("run", "bad"):
            running = True
        elif a[0] in ("job", "deliver") and not running:
            return False
    return True


def plans():
    T = base.THOROUGH
    run0, run1, stop, job, bye = ("run", 0, 0), ("run", 5, 0), ("stop", 0), ("job", 0), ("bye", 0)
    P = []
    P.append(("commands", [s for s in sequences([run0, run1, stop, job], 8 if T else 7, {"run": 3, "stop": 3}, (run0,)) if useful(s)], False))
    edits = [("edit", 1), ("edit", 0), ("edit", "nonsense: [")]
    P.append(("edits", [s for s in sequences([run0, stop, job] + edits, 7 if T else 6, {"run": 2, "stop": 1, "edit": 3}) if useful(s) and any(a[0] == "run" for a in s)], False))
    P.append(("slow", [s for s in sequences([run0, stop, job, ("deliver", 0), ("edit", 1), ("edit", 0)], 7 if T else 6, {"run": 2, "stop": 1, "edit": 2, "deliver": 2}, (run0,)) if useful(s)], True))
    P.append(("dark", [s for s in sequences([run0, stop, job, ("edit", 2), ("edit", 1)], 6 if T else 5, {"run": 2, "stop": 1, "edit": 2}) if useful(s)], False))
    bad = []
    for b in BAD:
        bad += [s for s in sequences([("bad", b, 0), run0, stop, job], 5 if T else 4, {"bad": 2 if T else 1, "run": 2, "stop": 1}) if useful(s) and any(a[0] == "bad" for a in s)]
    P.append(("bad", bad, False))
    P.append(("leaving", [s + (bye,) + t for n in range(0, 6 if T else 5) for s in sequences([run0, stop, job, run1], n, {"run": 2, "stop": 1}) if useful(s) for t in ((), (job,), (job, job))], False))
    two = [("run", 0, 0), ("run", 1, 1), ("stop", 0), ("stop", 1), ("job", 0), ("job", 1), ("bye", 1)]
    P.append(("two sessions", [s for s in sequences(two, 7 if T else 6, {"run": 3, "stop": 2, "bye": 1, "client": 1}, (("client",), ("run", 0, 0))) if useful(s) and sum(a == ("run", 1, 1) for a in s) >= 1
                               and not any(s[i][0] == "bye" and any(b[-1] == 1 and b[0] in ("run", "stop", "bye") for b in s[i + 1:]) for i in range(len(s)))], False))
    return P


_PLANS = None
_world = None


def work(job):
    global _world
    name, lo, hi, gated = job
    if _world is None:
        import multiprocessing
        multiprocessing.cpu_count = lambda: 2  # one thread for each bundle
        _world = World()
    out, n = [], 0
    seqs = _PLANS[name][lo:hi]
    for s in seqs:
        with contextlib.redirect_stdout(io.StringIO()):
            probs, lens = _world.execute(s, gated)
        n += len(s)
        for w in probs[:2]:
            out.append((w, list(s)))
        if len(out) > 20:
            break
    return out, len(seqs), n


def kind(w):
    import re
    return re.sub(r"[0-9.\[\]{}'-]+", "#", w)[:90]


def main(c):
    global _PLANS
    warnings.simplefilter("ignore")
    from mc import kernel
    kernel.ensure()
    import pvtrace.studio.server  # noqa
    from checks import c20
    c20.once_per_schema()
    P = plans()
    _PLANS = {n: s for n, s, _ in P}
    jobs = []
    for n, s, gated in P:
        step = 60
        for lo in range(0, len(s), step):
            jobs.append((n, lo, lo + step, gated))
        c.cov["schedules_" + n.replace(" ", "_")] = len(s)
        c.sample(dict(plan=n, schedule=s[len(s) // 2]))
    for j, r in zip(jobs, base.pmap(work, jobs)):
        if base.is_exc(r):
            c.violation(f"{j[0]}:exception", r[1][-500:], dict(job=j))
            continue
        out, ns, n = r
        c.cov["states"] += ns
        c.cov["transitions"] += n
        c.cov["traces_validated_against_impl"] += ns
        for w, s in out:
            c.violation(f"{j[0]}: {kind(w)}", f"after {s}: {w}", dict(schedule=s))
    c.assumptions += ["the engine's bundles run on the event loop's default executor", "between two awaits the server's code is atomic (one event loop thread)"]
