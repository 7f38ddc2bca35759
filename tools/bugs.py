"""Planted changes (see plant.py). Each: edits (file, old, new), demonstration, description."""
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))

PRE = '''
import sys, warnings
warnings.simplefilter("ignore")
import numpy as np
from pvtrace import *
'''

# ---------------------------------------------------------------- C01
bug("c01-attenuation-cache", "C01", [
    ("pvtrace/material/material.py",
     "    # Cache this function!\n    def total_attenutation_coefficient(self, wavelength: float) -> float:\n"
     "        coefs = [x.coefficient(wavelength) for x in self.components]\n"
     "        alpha = np.sum(coefs)\n        return alpha\n",
     "    def total_attenutation_coefficient(self, wavelength: float) -> float:\n"
     "        # Rays rarely change wavelength, remember the last value\n"
     "        key = int(wavelength)\n"
     "        last = getattr(self, \"_last_alpha\", None)\n"
     "        if last is not None and last[0] == key:\n"
     "            return last[1]\n"
     "        coefs = [x.coefficient(wavelength) for x in self.components]\n"
     "        alpha = np.sum(coefs)\n"
     "        self._last_alpha = (key, alpha)\n"
     "        return alpha\n")],
    "two photons whose wavelengths differ by less than a nanometre in a material with a steep spectrum",
    "the attenuation of a photon depends on the wavelength of the previous photon which crossed the material",
    PRE + '''
m = Material(1.5, components=[Absorber(np.array([[400., 0.0], [401., 10.0], [402., 10.0]]))])
fresh = Material(1.5, components=[Absorber(np.array([[400., 0.0], [401., 10.0], [402., 10.0]]))])
m.total_attenutation_coefficient(400.1)
a = m.total_attenutation_coefficient(400.9)
b = fresh.total_attenutation_coefficient(400.9)
print(a, b)
sys.exit(0 if abs(a - b) < 1e-9 else 1)
''', also=["C02"])

bug("c01-nonradiative-clock", "C01", [
    ("pvtrace/material/component.py",
     "            delay = -np.log(1 - np.random.uniform()) * self.tau_nr\n            return replace(ray, duration=ray.duration + delay)",
     "            delay = -np.log(1 - np.random.uniform()) * self.tau_nr\n            return replace(ray, duration=delay)")],
    "a component with a non-radiative lifetime which absorbs a photon that already travelled",
    "the clock of a photon lost with a non-radiative lifetime restarts: it no longer grows along the history",
    PRE + '''
a = Absorber(1.0, tau_nr=1e-15)
r = Ray((0,0,0),(0,0,1),555.0, travelled=3.0, duration=1.0)
out = a.nonradiative_absorb(r)
print(out.duration)
sys.exit(0 if out.duration >= 1.0 else 1)
''')

# ---------------------------------------------------------------- C02
bug("c02-weak-absorption", "C02", [
    ("pvtrace/material/material.py", "if np.isclose(alpha, 0.0):", "if np.isclose(alpha, 0.0, atol=1e-2):")],
    "a weakly absorbing host, coefficient below 0.01 per cm",
    "photons are never absorbed in weakly absorbing materials",
    PRE + '''
m = Material(1.5, components=[Absorber(0.005)])
np.random.seed(1)
n = sum(np.isfinite(m.penetration_depth(555.0)) for _ in range(50))
print(n)
sys.exit(0 if n == 50 else 1)
''')

# ---------------------------------------------------------------- C03
bug("c03-scatter-source", "C03", [
    ("pvtrace/engine/_kernel.pyx",
     "                source = comp\n                if ctype == COMP_LUMINOPHORE:\n",
     "                if ctype == COMP_LUMINOPHORE:\n                    source = comp\n")],
    "a photon scattered by a scatterer (not a luminophore) in the engine",
    "the engine leaves the source tag of scattered photons unchanged, the tracer names the scatterer",
    PRE + '''
from pvtrace import engine
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(2.0, material=Material(1.0, components=[Scatterer(5.0, name="sc")])))
Node(name="l", light=Light(name="lamp"), parent=w)
res = engine.simulate(Scene(w), 5, seed=1, workers=1)
for h in res.histories():
    for ray, event, meta in h:
        if event.name == "SCATTER" and ray.source != "sc":
            print(ray.source); sys.exit(1)
sys.exit(0)
''')

bug("c03-tau-order", "C03", [
    ("pvtrace/engine/_kernel.pyx",
     "                if S.comp_tau_nr[comp] > 0.0:\n                    duration += -log(1.0 - rng_uniform(&rng)) * S.comp_tau_nr[comp]\n",
     "                if S.comp_tau_nr[comp] > 0.0 and ctype != COMP_LUMINOPHORE:\n                    duration += -log(1.0 - rng_uniform(&rng)) * S.comp_tau_nr[comp]\n")],
    "a luminophore with lifetimes losing the photon non-radiatively in the engine",
    "the engine does not advance the clock of photons lost by a luminophore with a non-radiative lifetime",
    PRE + '''
from pvtrace import engine
x = np.linspace(400, 700, 50)
lum = Luminophore(np.column_stack((x, np.full(50, 50.0))), emission=np.column_stack((x, np.ones(50))), tau_rad=1.0, tau_nr=1e-6, name="lum")
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(2.0, material=Material(1.0, components=[lum])))
Node(name="l", light=Light(name="lamp"), parent=w)
res = engine.simulate(Scene(w), 20, seed=1, workers=1)
bad = 0
for h in res.histories():
    ev = [e.name for _, e, _ in h]
    if ev[-1] == "NONRADIATIVE" and h[-1][0].duration == h[-2][0].duration: bad += 1
print(bad)
sys.exit(1 if bad else 0)
''')

# ---------------------------------------------------------------- C04
bug("c04-lifetime-recorded-only", "C04", [
    ("pvtrace/engine/_kernel.pyx",
     "                    if S.comp_tau_rad[comp] > 0.0:\n",
     "                    if S.comp_tau_rad[comp] > 0.0 and base >= 0:\n")],
    "a luminophore with a radiative lifetime and record_every other than 1",
    "rays without a recorded history skip a random draw: tallies depend on which histories are kept",
    PRE + '''
from pvtrace import engine
from pvtrace.engine import Recorder
x = np.linspace(400, 700, 50)
lum = Luminophore(np.column_stack((x, np.full(50, 1.0))), emission=np.column_stack((x, np.ones(50))), tau_rad=1e-9, tau_nr=1e-8, name="lum")
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(2.0, material=Material(1.0, components=[lum])))
w.recorders = [Recorder("out", event="exit")]
Node(name="l", light=Light(name="lamp"), parent=w)
def run(k):
    r = engine.simulate(Scene(w), 100, seed=1, workers=1, record_every=k).recorders["out"]
    return r.rays, r.mean("duration")
print(run(1), run(0))
sys.exit(0 if run(1) == run(0) else 1)
''')

# ---------------------------------------------------------------- C05
bug("c05-heatmap-break", "C05", [
    ("pvtrace/engine/_kernel.pyx",
     "                if ib < 0 or ib >= S.h_nb[h]:\n                    continue\n",
     "                if ib < 0 or ib >= S.h_nb[h]:\n                    break\n")],
    "a recorder with a heatmap followed by another histogram, and a photon outside the heatmap's second range",
    "histograms attached after a heatmap miss photons which fall outside the heatmap",
    PRE + '''
from pvtrace import engine
from pvtrace.engine import Recorder, Heatmap, Histogram
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
w.recorders = [Recorder("out", event="exit", histograms=[
    Heatmap("wavelength", "pathlength", (500, 600, 2), (0, 5, 2)),
    Histogram("wavelength", 500, 600, 2)])]
Node(name="l", light=Light(name="lamp"), parent=w)
r = engine.simulate(Scene(w), 10, seed=1, workers=1).recorders["out"]
print(r.histogram(1))
sys.exit(0 if r.histogram(1)[1].sum() == 10 else 1)
''')

bug("c05-seen-before-facet", "C05", [
    ("pvtrace/engine/tally.py",
     "                if not _matches(recorder, node, event, metadata):\n                    continue\n                normal = metadata.get(\"normal\")\n",
     "                if not _matches(recorder, node, event, metadata):\n                    continue\n                first = recorder.name not in seen\n                seen.add(recorder.name)\n                normal = metadata.get(\"normal\")\n"),
    ("pvtrace/engine/tally.py",
     "                if recorder.name in seen:\n                    continue\n                seen.add(recorder.name)\n",
     "                if not first:\n                    continue\n")],
    "a facet recorder and a photon whose first matching crossing is through another facet",
    "the reference tally does not count photons which cross another facet first",
    PRE + '''
from pvtrace.engine import Recorder
from pvtrace.engine.tally import tally_histories
from pvtrace.light.event import Event
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Box((1,1,1), material=Material(1.5)))
b.recorders = [Recorder("top", event="escaping", facet=(0,0,1))]
ray = lambda p: Ray(p, (0,0,1), 555.0)
h = [(ray((0,0,0)), Event.GENERATE, None),
     (ray((0.5,0,0)), Event.TRANSMIT, dict(hit="b", container="b", adjacent="w", normal=(1.,0.,0.))),
     (ray((0.5,0,0)), Event.TRANSMIT, dict(hit="b", container="w", adjacent="b", normal=(1.,0.,0.))),
     (ray((0,0,0.5)), Event.TRANSMIT, dict(hit="b", container="b", adjacent="w", normal=(0.,0.,1.)))]
r = tally_histories(Scene(w), [h])["top"]
print(r)
sys.exit(0 if r.rays == 1 else 1)
''')

# ---------------------------------------------------------------- C06
bug("c06-seed-zero", "C06", [
    ("pvtrace/engine/api.py",
     "    if seed is None:\n        seed = np.random.randint(0, 2 ** 31 - 1)\n    traced = 0\n",
     "    seed = seed or np.random.randint(0, 2 ** 31 - 1)\n    traced = 0\n")],
    "streaming with seed=0",
    "a stream with seed 0 uses a random seed: it is not the run with seed 0",
    PRE + '''
from pvtrace import engine
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(2.0, material=Material(1.0, components=[Scatterer(5.0, name="sc")])))
Node(name="l", light=Light(name="lamp"), parent=w)
one = [tuple(e.name for _, e, _ in h) for h in engine.simulate(Scene(w), 6, seed=0, workers=1).histories()]
st = []
for res, n in engine.simulate_stream(Scene(w), 6, bundle=4, seed=0, workers=1):
    st += [tuple(e.name for _, e, _ in h) for h in res.histories()]
sys.exit(0 if one == st else 1)
''')

# ---------------------------------------------------------------- C07
bug("c07-det-rigid", "C07", [
    ("pvtrace/engine/compiler.py",
     "        if not np.allclose(rotation @ rotation.T, np.eye(3), atol=1e-9):",
     "        if not np.isclose(abs(np.linalg.det(rotation)), 1.0, atol=1e-9):")],
    "a volume-preserving but non-rigid placement (shear, or scale 2 by 1/2)",
    "the engine accepts and wrongly simulates scenes with sheared placements",
    PRE + '''
from pvtrace import engine
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Box((1,1,1), material=Material(1.5)))
b.pose = np.diag([2.0, 0.5, 1.0, 1.0])
Node(name="l", light=Light(name="lamp"), parent=w)
try:
    engine.compile_scene(Scene(w))
except engine.UnsupportedSceneError:
    sys.exit(0)
sys.exit(1)
''')

# ---------------------------------------------------------------- C08
bug("c08-end-ray-react", "C08", [
    ("pvtrace/scene/scene.py",
     "        Event.NONRADIATIVE,\n        Event.REACT,\n        Event.KILL,\n",
     "        Event.NONRADIATIVE,\n        Event.KILL,\n")],
    "end-ray delivery of a photon which ends in a reactor",
    "photons lost to a reaction have no terminal event in the end-ray stream",
    PRE + '''
import queue
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(2.0, material=Material(1.0, components=[Reactor(100.0)])))
Node(name="l", light=Light(name="lamp"), parent=w)
q = queue.Queue()
class Q:
    def __init__(self): self.x = []
    def put(self, v): self.x.append(v)
q = Q()
Scene(w).simulate(3, workers=1, seed=1, queue=q, end_rays=True)
ev = [r[3].name for r in q.x]
print(ev)
sys.exit(0 if ev.count("REACT") == 3 else 1)
''')

bug("c08-remainder", "C08", [
    ("pvtrace/scene/scene.py",
     "    rays[0] += remainder\n" if False else "        rays[0] += remainder\n",
     "        if remainder > 1:\n            rays[0] += remainder - 1\n            rays[-1] += 1\n")],
    "a number of photons which leaves remainder one after division over the workers",
    "one photon too few is traced when the remainder is one",
    PRE + '''
w = Node(name="w", geometry=Sphere(10.0, material=Material(1.0)))
Node(name="l", light=Light(name="lamp"), parent=w)
if __name__ == "__main__":
    sys.exit(0 if len(Scene(w).simulate(5, workers=2)) == 5 and len(Scene(w).simulate(8, workers=3)) == 8 else 1)
''')

# ---------------------------------------------------------------- C09
QDEMO = PRE + '''
import os, sqlite3, tempfile
from queue import Empty
import pvtrace.cli.main as m
from pvtrace.light.event import Event
class Progress:
    def update(self, n): pass
class Stop:
    flag = False
    def is_set(self): return self.flag
    def set(self): self.flag = True
def rec(pid, idx, event=Event.GENERATE):
    return (pid, idx, Ray((0., 0., float(idx)), (0., 0., 1.), 555.0, source="lamp"), event, None)
def rows(db, q="SELECT * FROM ray"):
    c = sqlite3.connect(db); r = c.execute(q).fetchall(); c.close(); return r
'''
bug("c09-lost-at-shutdown", "C09", [
    ("pvtrace/cli/main.py",
     "        if stop.is_set() and queue.empty():\n",
     "        if queue.empty() and stop.is_set():\n"),
    ("pvtrace/cli/main.py",
     "            # Wait for the queue to be empty before killing the monitor thread\n            while not queue.empty():\n                pytime.sleep(0.2)\n            stop.set()\n",
     "            # The monitor thread drains the queue before it ends\n            stop.set()\n")],
    "the last event is put and the shutdown requested between the writer's two checks",
    "an event delivered just before the shutdown is never written",
    QDEMO + '''
import inspect
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    m.prepare_database(db)
    stop = Stop()
    class Q:
        items = []; polls = 0
        def empty(self):
            was = not self.items
            self.polls += 1
            if self.polls == 1:      # right after this check the worker delivers and the run ends
                self.items.append(rec(1, 0)); stop.set()
            return was
        def get(self, block=True, timeout=None):
            if not self.items:
                if not stop.is_set(): # the worker delivers and the run ends while waiting
                    self.polls = 1; self.items.append(rec(1, 0)); stop.set()
                raise Empty()
            return self.items.pop(0)
    m.monitor_queue(db, Q(), stop, Progress(), None, None, True, 1, 1)
    n = len(rows(db))
    print(n)
    sys.exit(0 if n == 1 else 1)
''')

bug("c09-commit-when-idle", "C09", [
    ("pvtrace/cli/main.py", "            write_event(cur, event, metadata, ray_db_id)\n            connection.commit()\n\n        except Empty:\n            pass\n",
     "            write_event(cur, event, metadata, ray_db_id)\n\n        except Empty:\n            # Commit in batches while there is nothing to do\n            connection.commit()\n")],
    "the shutdown request arrives before the writer was idle after the last event",
    "events written since the last idle moment are rolled back when the writer closes the database",
    QDEMO + '''
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    m.prepare_database(db)
    stop = Stop()
    class Q:
        items = [rec(1, 0), rec(1, 1)]
        def empty(self): return not self.items
        def get(self, block=True, timeout=None):
            if not self.items: raise Empty()
            r = self.items.pop(0)
            if not self.items: stop.set()
            return r
    m.monitor_queue(db, Q(), stop, Progress(), None, None, True, 1, 1)
    n = len(rows(db))
    print(n)
    sys.exit(0 if n == 2 else 1)
''''')

bug("c09-throw-per-process", "C09", [
    ("pvtrace/cli/main.py",
     "            if (pid, throw_idx) not in global_ids:\n                global_ids[(pid, throw_idx)] = len(global_ids)\n",
     "            if (pid, throw_idx) not in global_ids:\n                global_ids[(pid, throw_idx)] = global_completed - 1\n"),
    ("pvtrace/cli/main.py",
     "            if sum(counts.values()) > global_completed:\n                global_completed += 1\n",
     "            if max(counts.values()) > global_completed:\n                global_completed += 1\n")],
    "two workers whose photons interleave on the queue",
    "photons of different workers are stored under the same throw",
    QDEMO + '''
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    m.prepare_database(db)
    stop = Stop()
    class Q:
        items = [rec(1, 0), rec(2, 0), rec(1, 1), rec(2, 1)]
        def empty(self): return not self.items
        def get(self, block=True, timeout=None):
            if not self.items: raise Empty()
            r = self.items.pop(0)
            if not self.items: stop.set()
            return r
    m.monitor_queue(db, Q(), stop, Progress(), None, None, True, 1, 1)
    n = len(rows(db, "SELECT DISTINCT throw_id FROM ray"))
    print(n)
    sys.exit(0 if n == 4 else 1)
''')

bug("c09-view-skips-joined", "C09", [
    ("pvtrace/cli/main.py", "                if (len(global_ids) % skip) == 0 or throw_idx == 0:\n                    history[pid] = []\n                else:\n                    if pid in history:\n                        history.pop(pid)\n",
     "                if (len(global_ids) % skip) == 0 or throw_idx == 0:\n                    history[pid] = []\n")],
    "a live view showing every n-th photon with n > 1",
    "the live view is given the events of several photons joined into one path",
    QDEMO + '''
class View:
    def __init__(self, *a, **k): self.vis = self; self.h = []; made.append(self)
    def add_history(self, h, *a, **k): self.h.append([x[0].wavelength for x in h])
    def __getattr__(self, n): return lambda *a, **k: None
made = []
m.MeshcatRenderer = View
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    m.prepare_database(db)
    stop = Stop()
    class Q:
        items = [(1, t, Ray((0., 0., 0.), (0., 0., 1.), 500.0 + t), e, {}) for t in range(5) for e in (Event.GENERATE, Event.EXIT)]
        def empty(self): return not self.items
        def get(self, block=True, timeout=None):
            if not self.items: raise Empty()
            r = self.items.pop(0)
            if not self.items: stop.set()
            return r
    m.monitor_queue(db, Q(), stop, Progress(), None, "x", True, 3, 1)
    print(made[0].h)
    sys.exit(0 if made[0].h and all(len(set(h)) == 1 for h in made[0].h) else 1)
''')

bug("c10-autocommit", "C10", [
    ("pvtrace/cli/main.py", "    connection = sqlite3.connect(dbfilepath)\n\n    renderer = None\n",
     "    # Autocommit: readers see the records while the simulation runs\n    connection = sqlite3.connect(dbfilepath, isolation_level=None)\n\n    renderer = None\n")],
    "the process dies between the two inserts of one record",
    "a photon state is left in the database without its event",
    QDEMO + '''
class Deadly:
    """An event; the process dies when its name is read for the database."""
    @property
    def name(self): os._exit(9)
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    m.prepare_database(db)
    pid = os.fork()
    if pid == 0:
        stop = Stop()
        class Q:
            items = [rec(1, 0), rec(1, 0), rec(1, 1, Deadly())]
            def empty(self): return not self.items
            def get(self, block=True, timeout=None):
                if not self.items: raise Empty()
                r = self.items.pop(0)
                if not self.items: stop.set()
                return r
        m.monitor_queue(db, Q(), stop, Progress(), None, None, True, 1, 1)
        os._exit(0)
    os.waitpid(pid, 0)
    r, e = len(rows(db)), len(rows(db, "SELECT * FROM event"))
    print(r, e)
    sys.exit(0 if r == e else 1)
''')

bug("c10-deferred-events", "C10", [
    ("pvtrace/cli/main.py",
     "            ray_db_id = write_ray(cur, ray, global_ids[(pid, throw_idx)])\n            write_event(cur, event, metadata, ray_db_id)\n            connection.commit()\n",
     "            ray_db_id = write_ray(cur, ray, global_ids[(pid, throw_idx)])\n            pending.append((event, metadata, ray_db_id))\n            if len(pending) >= 8:\n                flush(cur)\n            connection.commit()\n"),
    ("pvtrace/cli/main.py",
     "    global_completed = 0\n    counts = dict()\n",
     "    pending = []\n\n    def flush(cursor):\n        # Insert events in batches\n        for item in pending:\n            write_event(cursor, *item)\n        pending.clear()\n\n    global_completed = 0\n    counts = dict()\n"),
    ("pvtrace/cli/main.py",
     "        if stop.is_set() and queue.empty():\n            connection.close()\n            if renderer:\n",
     "        if stop.is_set() and queue.empty():\n            flush(connection.cursor())\n            connection.commit()\n            connection.close()\n            if renderer:\n")],
    "the process dies while recording, before the batch is full",
    "photon states are left in the database without their events",
    QDEMO + '''
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    m.prepare_database(db)
    pid = os.fork()
    if pid == 0:
        class Q:
            items = [rec(1, i) for i in range(3)]
            def empty(self): return not self.items
            def get(self, block=True, timeout=None):
                if not self.items: os._exit(9)
                return self.items.pop(0)
        m.monitor_queue(db, Q(), Stop(), Progress(), None, None, True, 1, 1)
        os._exit(0)
    os.waitpid(pid, 0)
    r, e = len(rows(db)), len(rows(db, "SELECT * FROM event"))
    print(r, e)
    sys.exit(0 if r == e else 1)
''')

CDEMO = QDEMO + '''
import typer.main
from click.testing import CliRunner
def run(*args):
    r = CliRunner().invoke(typer.main.get_command(m.app), [str(a) for a in args])
    if r.exception is not None: raise r.exception
    return r.output.strip()
def fill(db, recs):
    """recs: (throw, source, wavelength, duration, event, metadata)"""
    m.prepare_database(db)
    stop = Stop()
    class Q:
        items = [(1, t, Ray((0., 0., 0.), (0., 0., 1.), w, source=s, duration=d), e, md) for t, s, w, d, e, md in recs]
        def empty(self): return not self.items
        def get(self, block=True, timeout=None):
            if not self.items: raise Empty()
            r = self.items.pop(0)
            if not self.items: stop.set()
            return r
    m.monitor_queue(db, Q(), stop, Progress(), None, None, True, 1, 1)
def refl(n): return {"hit": "slab", "container": "world", "adjacent": "slab", "normal": n}
'''
bug("c09-refused-row-ignored", "C09", [
    ("pvtrace/cli/main.py", "            connection.commit()\n\n        except Empty:\n            pass\n",
     "            connection.commit()\n\n        except (Empty, sqlite3.OperationalError):\n            # Nothing to do or the database is busy, carry on\n            pass\n")],
    "the database refuses rows during the recording (the disk is full)",
    "events are lost although the command reports success",
    CDEMO + '''
real = sqlite3.connect
def small(*a, **k):
    con = real(*a, **k)
    con.execute("PRAGMA max_page_count = 6")
    return con
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "s.yml"), "w") as f:
        f.write("""version: "1.0"
nodes:
  world: {sphere: {radius: 10.0, material: {refractive-index: 1.0}}}
  box: {box: {size: [1, 1, 1], material: {refractive-index: 1.5}}}
  lamp: {location: [0, 0, 3], light: {wavelength: 500.0, mask: {direction: {cone: {half-angle: 20}}}}}
""")
    sqlite3.connect = small
    r = CliRunner().invoke(typer.main.get_command(m.app), ["simulate", os.path.join(d, "s.yml"), "--rays", "200", "--workers", "1", "--overwrite"])
    print(r.exit_code, r.output[-60:])
    sys.exit(0 if r.exit_code != 0 else 1)
''')

bug("c11-zero-normal", "C11", [
    ("pvtrace/cli/db.py", "        if value is not None:\n            lines.append", "        if value:\n            lines.append")],
    "a normal filter with component zero",
    "the filter --nx 0 is dropped and photons reflected from other faces are counted",
    CDEMO + '''
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    fill(db, [(0, "lamp", 500., 0., Event.REFLECT, refl((1., 0., 0.))), (1, "lamp", 500., 0., Event.REFLECT, refl((0., 0., 1.)))])
    n = run("count", "reflected", "slab", db, "--nx", "0")
    print(n)
    sys.exit(0 if n == "1" else 1)
''')

bug("c11-distinct-source", "C11", [
    ("pvtrace/cli/db.py", '        f"SELECT DISTINCT {columns} FROM ray",\n        "INNER JOIN event ON ray.rowid = event.ray_id",\n        "WHERE hit = ?",',
     '        f"SELECT DISTINCT {columns}, source FROM ray",\n        "INNER JOIN event ON ray.rowid = event.ray_id",\n        "WHERE hit = ?",')],
    "one photon crossing the surface both before and after re-emission",
    "the photon is counted twice",
    CDEMO + '''
with tempfile.TemporaryDirectory() as d:
    db = os.path.join(d, "x.sqlite3")
    fill(db, [(0, "lamp", 500., 0., Event.REFLECT, refl((1., 0., 0.))), (0, "dye", 600., 0., Event.REFLECT, refl((0., 0., 1.)))])
    n = run("count", "reflected", "slab", db)
    print(n)
    sys.exit(0 if n == "1" else 1)
''')

# ---------------------------------------------------------------- C12
YDEMO = PRE + '''
import os, tempfile, contextlib, io
from pvtrace.cli.parse import parse
def build(text):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "scene.yml")
        open(p, "w").write(text)
        with contextlib.redirect_stdout(io.StringIO()):
            return parse(p)
'''
bug("c12-zero-yield", "C12", [
    ("pvtrace/cli/parse.py",
     '            if "quantum-yield" in spec["emission"]:\n                quantum_yield = spec["emission"]["quantum-yield"]\n',
     '            quantum_yield = spec["emission"].get("quantum-yield") or quantum_yield\n')],
    "a luminophore whose file gives a quantum yield of zero",
    "the luminophore is built with the default yield of one",
    YDEMO + '''
s = build("""
version: "1.0"
components:
  dye:
    luminophore:
      absorption:
        coefficient: 2.0
        spectrum:
          name: lumogen-f-red-305
          range: {min: 400.0, max: 800.0, spacing: 2.0}
      emission:
        quantum-yield: 0.0
        spectrum:
          name: lumogen-f-red-305
          range: {min: 400.0, max: 800.0, spacing: 2.0}
nodes:
  world:
    sphere:
      radius: 10.0
      material:
        refractive-index: 1.0
        components: [dye]
""")
c = s.root.geometry.material.components[0]
print(c.quantum_yield)
sys.exit(0 if c.quantum_yield == 0.0 else 1)
''')

bug("c12-auto-recorder-precedence", "C12", [
    ("pvtrace/cli/parse.py", "                recorders_spec.setdefault(name, recorder)\n", "                recorders_spec[name] = recorder\n")],
    "a node with record: true and an explicit recorder of the same name as an automatic one",
    "the explicit recorder is replaced by the automatic one",
    YDEMO + '''
s = build("""
version: "1.0"
nodes:
  world:
    sphere:
      radius: 10.0
      material:
        refractive-index: 1.0
  slab:
    record: true
    box:
      size: [1.0, 1.0, 1.0]
      material:
        refractive-index: 1.5
recorders:
  slab-top:
    node: slab
    event: entering
    facet: [0, 0, 1]
""")
n = [x for x in s.root.children if x.name == "slab"][0]
ev = [r.event for r in n.recorders if r.name == "slab-top"]
print(ev)
sys.exit(0 if ev == ["entering"] else 1)
''')

bug("c12-shared-spectrum", "C12", [
    ("pvtrace/cli/parse.py",
     "    def load_named_spectrum(spec, named_type) -> Optional[numpy.ndarray]:\n",
     "    named_spectra = {}\n\n    def load_named_spectrum(spec, named_type) -> Optional[numpy.ndarray]:\n"
     "        # Components often share the same named spectrum\n"
     "        key = (spec[\"name\"], tuple(spec[\"range\"].values()), named_type)\n"
     "        if key not in named_spectra:\n"
     "            named_spectra[key] = make_named_spectrum(spec, named_type)\n"
     "        return named_spectra[key]\n\n"
     "    def make_named_spectrum(spec, named_type) -> Optional[numpy.ndarray]:\n")],
    "two components given by the same named spectrum with different coefficients",
    "scaling the second component's spectrum also rescales the first one's coefficient",
    YDEMO + '''
c = """
    absorber:
      coefficient: %s
      spectrum:
        name: fluro-red
        range: {min: 400.0, max: 800.0, spacing: 2.0}
"""
s = build("""
version: "1.0"
components:
  one:%s  two:%s
nodes:
  world:
    sphere:
      radius: 10.0
      material:
        refractive-index: 1.0
        components: [one, two]
""" % (c % "2.0", c % "5.0"))
m = [max(float(x.coefficient(float(nm))) for nm in np.arange(400.0, 798.0, 2.0)) for x in s.root.geometry.material.components]
print(m)
sys.exit(0 if abs(m[0] - 2) < 1e-6 and abs(m[1] - 5) < 1e-6 else 1)
''')

# ---------------------------------------------------------------- C13
bug("c13-stale-ancestor", "C13", [
    ("pvtrace/scene/node.py",
     "        if self == node:\n            return np.identity(4)\n        upwards, common, downwards = Walker().walk(self, node)\n",
     "        if self == node:\n            return np.identity(4)\n"
     "        # The same conversion is asked for many times while tracing\n"
     "        cache = self.__dict__.setdefault(\"_transforms\", {})\n"
     "        key = (id(node), id(self.parent), id(node.parent), self.pose.tobytes(), node.pose.tobytes())\n"
     "        if key not in cache:\n"
     "            cache[key] = self._transformation_to(node)\n"
     "        return cache[key]\n\n"
     "    def _transformation_to(self, node: Node) -> np.ndarray:\n"
     "        upwards, common, downwards = Walker().walk(self, node)\n")],
    "a conversion across at least three levels, before and after the node in the middle is moved",
    "moving a node between two others does not take effect in conversions between them made before",
    PRE + '''
a = Node(name="a")
b = Node(name="b", parent=a)
c = Node(name="c", parent=b)
p = c.point_to_node((0, 0, 0), a)
b.translate((1.0, 2.0, 3.0))
q = c.point_to_node((0, 0, 0), a)
print(p, q)
sys.exit(0 if np.allclose(q, (1, 2, 3)) else 1)
''', also=[])

bug("c13-small-move", "C13", [
    ("pvtrace/geometry/transformable.py",
     "        self._pose[0:3, 3] = np.array(new_value)\n",
     "        if not np.allclose(self._pose[0:3, 3], self._location):\n            self._pose[0:3, 3] = np.array(new_value)\n")],
    "a node moved by a few micrometres with its location property",
    "the location changes but conversions still use the old place",
    PRE + '''
w = Node(name="w")
a = Node(name="a", parent=w, location=(0.0, 0.0, 10.0))
a.location = (0.0, 0.0, 10.00005)
q = a.point_to_node((0, 0, 0), w)
print(q)
sys.exit(0 if abs(q[2] - 10.00005) < 1e-9 else 1)
''')

bug("c13-unit-vectors", "C13", [
    ("pvtrace/scene/node.py",
     "        new_vec = tuple(np.dot(mat, np.array(tuple(vector)))[0:3])\n        return new_vec\n",
     "        new_vec = np.dot(mat, np.array(tuple(vector)))[0:3]\n"
     "        # Guard against rounding errors accumulating in directions\n"
     "        new_vec = new_vec / np.linalg.norm(new_vec)\n"
     "        return tuple(new_vec)\n")],
    "a vector which is not of unit length (a displacement, say)",
    "converting a displacement to another node and back changes its length",
    PRE + '''
w = Node(name="w")
a = Node(name="a", parent=w)
a.rotate(0.3, (1, 0, 0))
v = w.vector_to_node(a.vector_to_node((1.0, 2.0, 3.0), w), a)
print(v)
sys.exit(0 if np.allclose(v, (1, 2, 3)) else 1)
''')

# ---------------------------------------------------------------- C14
bug("c14-flat-rays", "C14", [
    ("pvtrace/engine/_kernel.pyx", "    if fabs(d[2]) > 1e-300:\n", "    if fabs(d[2]) > 1e-3:\n")],
    "a thin disc and a photon within 0.06 degrees of its plane",
    "the engine misses the caps of a cylinder for nearly horizontal photons",
    PRE + '''
from pvtrace import engine
w = Node(name="w", geometry=Sphere(50.0, material=Material(1.0)))
c = Node(name="c", parent=w, geometry=Cylinder(0.01, 10.0, material=Material(1.0)))
d = np.array([1.0, 0.0, -5e-4]); d /= np.linalg.norm(d)
light = Node(name="l", parent=w, light=Light(position=lambda: (-15.0, 0.0, 0.01), direction=lambda: tuple(d)))
h = next(iter(engine.simulate(Scene(w), 1, seed=1, workers=1).histories()))
n = [e.name for _, e, _ in h].count("TRANSMIT")
xs = [r.position[2] for r, e, _ in h if e.name == "TRANSMIT"]
print(xs)
sys.exit(0 if n == 2 and abs(xs[0] - 0.005) < 1e-6 else 1)
''', also=["C03"])

bug("c14-mesh-bounds", "C14", [
    ("pvtrace/geometry/mesh.py",
     "        return self.trimesh.contains(np.array([point]))[0]\n",
     "        # Cheap test first, ray casting is slow\n"
     "        if np.any(np.absolute(point) > 0.5 * self.trimesh.extents):\n            return False\n"
     "        return self.trimesh.contains(np.array([point]))[0]\n")],
    "a mesh whose centre of mass is not the centre of its bounding box",
    "points inside the longer side of the mesh are reported outside",
    PRE + '''
import trimesh
t = trimesh.Trimesh(vertices=[(0, 0, 0), (2, 0, 0), (0, 3, 0), (0, 0, 1.5)], faces=[(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)])
c = np.array(t.center_mass)
m = Mesh(t)
p = np.array((1.9, 0.02, 0.02)) - c
print(m.contains(tuple(p)))
sys.exit(0 if m.contains(tuple(p)) else 1)
''')

bug("c14-cylinder-inside", "C14", [
    ("pvtrace/geometry/utils.py",
     "        if point[2] > -0.5 * length and point[2] < 0.5 * length\n",
     "        if np.absolute(point[2]) < 0.5 * length - 1e-6\n")],
    "a photon which meets the side of a cylinder within 1e-6 of its rim",
    "the crossing is not reported: the photon has an odd number of intersections with the shape",
    PRE + '''
c = Cylinder(2.0, 1.0)
p = c.intersections((-3.0, 0.0, 1.0 - 5e-7), (1.0, 0.0, 0.0))
print(p)
sys.exit(0 if len(p) == 2 else 1)
''')

# ---------------------------------------------------------------- C15
bug("c15-negative-noise", "C15", [
    ("pvtrace/material/distribution.py", "            if np.any(y < 0.0):\n", "            # Digitised spectra have a little noise around zero\n            if np.any(y < -1e-6 * np.max(np.absolute(y))):\n")],
    "a spectrum with a weight which is negative by less than a millionth of its maximum",
    "negative data are accepted: the cumulative probability decreases",
    PRE + '''
from pvtrace.material.distribution import Distribution
x = np.array([400., 500., 600., 700.])
try:
    d = Distribution(x, np.array([0.0, -1e-7, 0.0, 1.0]))
    print(d.lookup(x))
    sys.exit(1)
except ValueError:
    sys.exit(0)
''')

bug("c15-range-tolerance", "C15", [
    ("pvtrace/geometry/utils.py",
     "    return np.where(np.logical_or(x < x_range[0], x > x_range[1]))[0].size == 0\n",
     "    tol = 1e-9 * np.absolute(x_range[1])\n"
     "    return np.where(np.logical_or(x < x_range[0] - tol, x > x_range[1] + tol))[0].size == 0\n")],
    "a query just outside the range of the spectrum (less than a billionth)",
    "the value of the spectrum is nan instead of being refused",
    PRE + '''
from pvtrace.material.distribution import Distribution
d = Distribution(np.array([400., 500., 700.]), np.array([0.0, 1.0, 0.5]))
try:
    print(d(700.0 + 2e-7), d.lookup(700.0 + 2e-7), d.sample(1.0 + 5e-10))
    sys.exit(1)
except ValueError:
    sys.exit(0)
''')

# ---------------------------------------------------------------- C16
bug("c16-kt-off-peak", "C16", [
    ("pvtrace/engine/_kernel.pyx",
     "                        p1 = interp_clamped(e_nm, ax, ay, an)\n",
     "                        p1 = interp_clamped(e_nm, ax, ay, an)\n"
     "                        if p1 > 0.999:\n"
     "                            # nothing left of the spectrum to emit into\n"
     "                            p1 = 0.999\n")],
    "a photon absorbed in the far red tail of the emission spectrum, traced by the engine",
    "the engine re-emits it at a shorter wavelength than the method allows",
    PRE + '''
from pvtrace import engine
x = np.linspace(400, 800, 401)
lum = Luminophore(np.column_stack((x, np.full_like(x, 5.0))), emission=np.column_stack((x, np.exp(-((x - 600) / 20.) ** 2))))
w = Node(name="w", geometry=Sphere(100.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(10.0, material=Material(1.0, components=[lum])))
Node(name="l", light=Light(wavelength=lambda: 660.0), parent=b)
bad = 0
for h in engine.simulate(Scene(w), 200, seed=1, workers=1, emit_method="redshift").histories():
    last = None
    for r, e, m in h:
        if e.name == "EMIT" and r.wavelength < last - 1e-9:
            bad += 1
        last = r.wavelength
print(bad)
sys.exit(1 if bad else 0)
''')

bug("c16-lambertian-phi", "C16", [
    ("pvtrace/material/utils.py",
     "    p1, p2 = np.random.uniform(0, 1, 2)\n    theta = np.arcsin(np.sqrt(p1))\n",
     "    p1, p2 = np.random.uniform(0, 1, 2)\n    theta = 0.5 * np.arccos(1 - 2 * np.minimum(p1, 0.995))\n")],
    "a Lambertian direction within four degrees of the surface",
    "grazing directions are never sampled by the Lambertian phase function",
    PRE + '''
from pvtrace.material.utils import lambertian
np.random.seed(1)
z = min(lambertian()[2] for _ in range(5000))
print(z)
sys.exit(0 if z < 0.05 else 1)
''')

bug("c16-emission-hist", "C16", [
    ("pvtrace/material/component.py",
     "            self._ems_dist = Distribution(x=emission[:, 0], y=emission[:, 1], hist=hist)\n",
     "            self._ems_dist = Distribution(x=emission[:, 0], y=emission[:, 1])\n")],
    "a luminophore whose spectra are histograms",
    "wavelengths between the bins, and in bins without weight, are emitted",
    PRE + '''
ab = np.array([[400., 1.0], [500., 1.0], [600., 1.0], [700., 1.0]])
em = np.array([[400., 0.0], [500., 1.0], [600., 2.0], [700., 0.0]])
lum = Luminophore(ab, emission=em, hist=True)
np.random.seed(1)
w = {lum.emit(Ray((0, 0, 0), (0, 0, 1), 450.0), method="full").wavelength for _ in range(50)}
print(sorted(w)[:5])
sys.exit(0 if w <= {500.0, 600.0} else 1)
''')

bug("c16-lifetime-order", "C16", [
    ("pvtrace/engine/compiler.py",
     "        self.comp_tau_rad = rows[:, 2].copy()\n        self.comp_tau_nr = rows[:, 3].copy()\n",
     "        self.comp_tau_nr = rows[:, 2].copy()\n        self.comp_tau_rad = rows[:, 3].copy()\n")],
    "a luminophore of two different lifetimes, traced by the engine",
    "emission is delayed by the nonradiative lifetime and loss by the radiative one",
    PRE + '''
from pvtrace import engine
x = np.linspace(400, 800, 401)
lum = Luminophore(np.column_stack((x, np.full_like(x, 5.0))), emission=np.column_stack((x, np.exp(-((x - 600) / 20.) ** 2))), tau_rad=1e-9, tau_nr=1e-6)
w = Node(name="w", geometry=Sphere(100.0, material=Material(1.0)))
b = Node(name="b", parent=w, geometry=Sphere(10.0, material=Material(1.0, components=[lum])))
Node(name="l", light=Light(wavelength=lambda: 500.0), parent=b)
t = []
for h in engine.simulate(Scene(w), 300, seed=1, workers=1).histories():
    for (r0, e0, _), (r, e, _) in zip(h, h[1:]):
        if e.name == "EMIT": t.append(r.duration - r0.duration)
print(np.mean(t))
sys.exit(0 if np.mean(t) < 2e-9 else 1)
''')

bug("c16-loss-before", "C16", [
    ("pvtrace/material/component.py",
     "        if self.tau_nr:\n            delay = -np.log(1 - np.random.uniform()) * self.tau_nr\n",
     "        tau = 1 / (1 / self.tau_nr + 1 / self.tau_rad) if self.tau_nr and self.tau_rad else self.tau_nr\n        if tau:\n            delay = -np.log(1 - np.random.uniform()) * tau * (1 if self.tau_rad is None else self.quantum_yield or 1)\n")],
    "a component with both lifetimes, a photon which is lost",
    "the delay before a loss is not of the nonradiative lifetime",
    PRE + '''
x = np.linspace(400, 800, 401)
lum = Luminophore(np.column_stack((x, np.full_like(x, 5.0))), emission=np.column_stack((x, np.exp(-((x - 600) / 20.) ** 2))), tau_rad=3e-9, tau_nr=1e-9)
np.random.seed(1)
t = [lum.nonradiative_absorb(Ray((0, 0, 0), (0, 0, 1), 500.0)).duration for _ in range(2000)]
print(np.mean(t))
sys.exit(0 if 0.8e-9 < np.mean(t) < 1.2e-9 else 1)
''')

# ---------------------------------------------------------------- C17
bug("c17-rectangle-corner", "C17", [
    ("pvtrace/engine/emit.py",
     "        return np.column_stack((\n            np.random.uniform(-delegate.x, delegate.x, n),\n            np.random.uniform(-delegate.y, delegate.y, n),\n            np.zeros(n),\n        ))\n",
     "        half = np.array([delegate.x, delegate.y])\n        xy = np.random.uniform(-half, half, (n, 2) if n > 1 else 2).reshape(n, 2)\n        if n > 4 and delegate.x == delegate.y:\n            # square: one block of numbers serves both sides\n            xy = delegate.x * (2 * np.random.uniform(0, 1, n)[:, None].repeat(2, axis=1) - 1)\n            xy[:, 1] = np.roll(xy[:, 1], 1)\n        return np.column_stack((xy, np.zeros(n)))\n")],
    "a bundle of more than four photons of a square light",
    "the positions of consecutive photons of a bundle are not independent: the y of one photon is the x of the previous",
    PRE + '''
from pvtrace.light.light import RectangularMask
from pvtrace.engine.emit import emit_bundle
w = Node(name="w", geometry=Sphere(100.0, material=Material(1.0)))
Node(name="l", light=Light(position=RectangularMask(1, 1)), parent=w)
p = emit_bundle(Scene(w), 8)[0]
print(p)
sys.exit(1 if np.allclose(np.roll(p[:, 0], 1), p[:, 1]) else 0)
''')

bug("c17-partial-cone", "C17", [
    ("pvtrace/engine/emit.py",
     "    if delegate is isotropic:\n",
     "    func = getattr(delegate, \"func\", None)\n"
     "    if func is not None and func.__name__ == \"cone\":\n"
     "        return _sample_directions(Cone(*delegate.args), n)\n"
     "    delegate = func if func is isotropic else delegate\n"
     "    if func is not None and func.__name__ == \"henyey_greenstein\":\n"
     "        return _sample_directions(isotropic, n)\n"
     "    if delegate is isotropic:\n")],
    "a light whose direction is functools.partial(henyey_greenstein, g), in the engine",
    "the engine emits isotropically",
    PRE + '''
import functools
from pvtrace.material.utils import henyey_greenstein
from pvtrace.engine.emit import emit_bundle
w = Node(name="w", geometry=Sphere(100.0, material=Material(1.0)))
Node(name="l", light=Light(direction=functools.partial(henyey_greenstein, 0.9)), parent=w)
np.random.seed(1)
d = emit_bundle(Scene(w), 500)[1]
print(d[:, 2].mean())
sys.exit(0 if abs(d[:, 2].mean() - 0.9) < 0.1 else 1)
''')

bug("c17-light-frame", "C17", [
    ("pvtrace/engine/emit.py",
     "        directions[rows] = direction @ rotation.T\n",
     "        directions[rows] = direction @ (rotation.T if node.parent is scene.root else node.pose[:3, :3].T)\n")],
    "a light inside a turned node which is not the world",
    "the engine ignores the orientation of the nodes between the light and the world",
    PRE + '''
from pvtrace.engine.emit import emit_bundle
w = Node(name="w", geometry=Sphere(100.0, material=Material(1.0)))
f = Node(name="frame", parent=w)
f.rotate(np.pi / 2, (1, 0, 0))
Node(name="l", light=Light(), parent=f)
d = emit_bundle(Scene(w), 1)[1][0]
print(d)
sys.exit(0 if abs(d[2]) < 1e-9 else 1)
''')

# ---------------------------------------------------------------- C18
bug("c18-weak-reflection", "C18", [
    ("pvtrace/material/surface.py", "        if r == 0.0:\n            return False\n", "        if np.isclose(r, 0.0, atol=1e-3):\n            return False\n")],
    "a surface which reflects less than a thousandth of the photons (almost equal indices, or a delegate)",
    "weak reflections never happen in the tracer",
    PRE + '''
from pvtrace.material.surface import Surface, SurfaceDelegate
class D(SurfaceDelegate):
    def reflectivity(self, *a): return 5e-4
    def reflected_direction(self, *a): return (0.0, 0.0, 1.0)
    def transmitted_direction(self, *a): return (0.0, 0.0, -1.0)
s = Surface(delegate=D())
np.random.seed(1)
n = sum(s.is_reflected(None, None, None, None) for _ in range(100000))
print(n)
sys.exit(0 if n > 10 else 1)
''')

bug("c18-index-matched", "C18", [
    ("pvtrace/engine/_kernel.pyx",
     "            r = fresnel_reflectivity(angle, n1, n2)\n\n",
     "            # index matched surfaces are transparent\n"
     "            r = fresnel_reflectivity(angle, n1, n2) if fabs(n1 - n2) > 1e-3 else 0.0\n\n")],
    "two media with almost equal indices and a photon at grazing incidence",
    "the engine does not reflect it totally (nor partially)",
    PRE + '''
from pvtrace import engine
w = Node(name="w", geometry=Sphere(100.0, material=Material(1.4995)))
b = Node(name="b", parent=w, geometry=Box((10.0, 10.0, 2.0), material=Material(1.5)))
d = np.array([1.0, 0.0, 0.01]); d /= np.linalg.norm(d)
Node(name="l", light=Light(position=lambda: (0.0, 0.0, 0.99), direction=lambda: tuple(d)), parent=w)
h = next(iter(engine.simulate(Scene(w), 1, seed=1, workers=1).histories()))
print([e.name for _, e, _ in h])
sys.exit(0 if h[1][1].name == "REFLECT" else 1)
''')

bug("c18-brewster", "C18", [
    ("pvtrace/material/utils.py",
     "    Rp = (Rp1 / Rp2) ** 2\n",
     "    Rp = (Rp1 / Rp2) ** 2 if n1 < n2 or c > 0.1 else 1.0\n")],
    "a photon inside the dense medium, just below the critical angle, indices close enough for it to exceed 84 degrees",
    "the reflectivity of p-polarised light is taken as total beyond 84 degrees",
    PRE + '''
from pvtrace.material.utils import fresnel_reflectivity
a = np.radians(85.0)
r1 = fresnel_reflectivity(a, 1.5, 1.499)
b = np.arcsin(1.5 / 1.499 * np.sin(a))
r2 = fresnel_reflectivity(b, 1.499, 1.5)
print(r1, r2)
sys.exit(0 if abs(r1 - r2) < 1e-9 else 1)
''')

# ---------------------------------------------------------------- C19
LDEMO = PRE + '''
import io, contextlib
from pvtrace.device.lsc import LSC
X = np.arange(400., 801., 5.)
def dye(lsc, name, k=8.0):
    lsc.add_luminophore(name, np.column_stack((X, k*np.exp(-((X-520)/60)**2))), np.column_stack((X, np.exp(-((X-620)/40)**2))), 1.0)
def run(lsc, n=60, seed=1):
    np.random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        lsc.simulate(n)
'''
bug("c19-second-cell", "C19", [("pvtrace/device/lsc.py", "        self._solar_cell_surfaces = facets.union(self._solar_cell_surfaces)\n", "        self._solar_cell_surfaces = facets\n")],
    "solar cells added in two calls", "adding solar cells to one facet removes the cells added to other facets before",
    LDEMO + '''
lsc = LSC((2., 2., .5), wavelength_range=X); dye(lsc, "d")
lsc.add_solar_cell({"left"}); lsc.add_solar_cell({"right"})
run(lsc)
s = lsc.summary()
c = lsc.counts()["Luminescent Out"]
print(s["Cell Surfaces"], s["Optical Efficiency"] * s["Incident"], c["left"] + c["right"])
sys.exit(0 if s["Cell Surfaces"] == {"left", "right"} and abs(s["Optical Efficiency"] * s["Incident"] - c["left"] - c["right"]) < 1e-9 else 1)
''')
bug("c19-source-prefix", "C19", [("pvtrace/device/lsc.py", "            if isinstance(source, str):\n                source = {source}\n",
     "            if isinstance(source, str):\n                source = {name for name in all_sources if name.startswith(source)} or {source}\n")],
    "two components, the name of one of which begins with the name of the other", "spectra asked for one dye include photons of another",
    LDEMO + '''
lsc = LSC((2., 2., .5), wavelength_range=X); dye(lsc, "red", 3.0); dye(lsc, "red 305", 3.0)
run(lsc)
a, b = lsc.spectrum(source="red").shape[0], lsc.spectrum(source={"red"}).shape[0]
print(a, b)
sys.exit(0 if a == b else 1)
''')
bug("c19-escaped-edges", "C19", [("pvtrace/device/lsc.py", "        for facet in all_facets - self._solar_cell_surfaces:\n", "        for facet in {\"top\", \"bottom\"} - self._solar_cell_surfaces:\n")],
    "luminescence escaping through an edge without a solar cell", "photons escaping through edges without cells are missing from the waveguide efficiency",
    LDEMO + '''
lsc = LSC((2., 2., .5), wavelength_range=X); dye(lsc, "d")
lsc.add_solar_cell({"left"})
run(lsc)
s, c = lsc.summary(), lsc.counts()["Luminescent Out"]
print(s["Waveguide Efficiency"], c["left"] / c.sum())
sys.exit(0 if abs(s["Waveguide Efficiency"] - c["left"] / c.sum()) < 1e-9 else 1)
''')
bug("c19-film-gap", "C19", [("pvtrace/device/lsc.py", "            air_gap_mirror.translate((0.0, 0.0, -(0.5 * d + sheet_thickness)))\n", "            air_gap_mirror.translate((0.0, 0.0, -0.5 * (d + sheet_thickness)))\n")],
    "an air gap mirror", "the mirror touches the slab: there is no air gap between them",
    LDEMO + '''
lsc = LSC((2., 2., .5), wavelength_range=X); dye(lsc, "d"); lsc.add_air_gap_mirror()
run(lsc, 1)
m = [n for n in lsc._scene.root.children if n.name == "Air Gap Mirror"][0]
top = m.location[2] + 0.5 * m.geometry.size[2] if hasattr(m.geometry, "size") else m.location[2] + 0.5 * m.geometry._size[2]
print(top)
sys.exit(0 if top < -0.25 - 1e-6 else 1)
''')

# ---------------------------------------------------------------- C20
SDEMO = '''
import sys, os, json, tempfile, warnings, shutil
warnings.simplefilter("ignore")
from fastapi.testclient import TestClient
from pvtrace.studio.server import create_app
d = tempfile.mkdtemp()
os.chdir(d)
DOC = """version: "1.0"
nodes:
  world: {sphere: {radius: 12.0, material: {refractive-index: 1.0}}}
  slab:
    location: [1.0, 2.0, 0.5]
    record: true
    box: {size: [3, 2, 1], material: {refractive-index: 1.5}}
  ball:
    parent: slab
    location: [0.1, 0, 0]
    sphere: {radius: 0.25, material: {refractive-index: 1.2}}
  lamp: {location: [0, 0, 3], direction: [0, 0, -1], light: {wavelength: 555}}
"""
open("scene.yml", "w").write(DOC)
client = TestClient(create_app(os.path.join(d, "scene.yml")))
def patch(**op):
    return client.post("/api/patch", json=op)
def text():
    return client.get("/api/document").json()["text"]
def done(ok):
    os.chdir("/")
    shutil.rmtree(d)
    sys.exit(0 if ok else 1)
'''
bug("c20-half-applied", "C20", [("pvtrace/studio/server.py", "        compiled = engine.compile_scene(scene)  # raises if unsupported\n", "        self.document = text\n        compiled = engine.compile_scene(scene)\n")],
    "a document which parses but which the engine does not support", "a refused document replaces the current one: document and running scene differ",
    SDEMO + '''
r = client.put("/api/document", json={"text": DOC + "recorders:\\n  r: {node: slab, event: lost, facet: [0, 0, 1]}\\n"})
print(r.status_code, text() == DOC)
done(r.status_code == 422 and text() == DOC)
''')
bug("c20-move-displaced", "C20", [("pvtrace/studio/server.py", "        local = studio.scene.root.point_to_node(tuple(world), node.parent)\n", "        local = studio.scene.root.vector_to_node(tuple(world), node.parent)\n")],
    "moving a node whose parent is displaced", "the node lands elsewhere than where it was dropped",
    SDEMO + '''
r = patch(op="move", node="ball", world_position=[1.5, 2.0, 0.75]).json()
m = [n for n in r["scene"]["nodes"] if n["name"] == "ball"][0]["matrix"]
print(m[12:15])
done(max(abs(a - b) for a, b in zip(m[12:15], [1.5, 2.0, 0.75])) < 1e-5)
''')
bug("c20-name-reuse", "C20", [("pvtrace/studio/server.py", "    index = 1\n    while f\"{stem}-{index}\" in existing:\n        index += 1\n    return f\"{stem}-{index}\"\n",
     "    index = 1 + sum(1 for name in existing if name.startswith(f\"{stem}-\"))\n    return f\"{stem}-{index}\"\n")],
    "adding two objects, deleting the first and adding another", "the new object silently replaces an existing one",
    SDEMO + '''
patch(op="add-node", kind="box"); patch(op="add-node", kind="box")
patch(op="set", path=["nodes", "box-2", "box", "size"], value=[0.5, 0.5, 0.5])
patch(op="delete-node", node="box-1")
r = patch(op="add-node", kind="box").json()
boxes = [n["name"] for n in r["scene"]["nodes"] if n["name"].startswith("box-")]
print(boxes)
done(len(boxes) == 2)
''')
bug("c20-materialised-bins", "C20", [("pvtrace/studio/server.py", "                        _flow([hist.b.start, hist.b.stop, hist.b.bins]),\n                    ])\n                else:", "                        _flow([hist.b.start, hist.b.stop, hist.a.bins]),\n                    ])\n                else:")],
    "editing an automatic recorder of a face which is not square", "the recorder's heatmap changes its number of bins when its event is edited",
    SDEMO + '''
before = [r for r in client.put("/api/document", json={"text": DOC}).json()["scene"]["recorders"] if r["name"] == "slab-top"][0]["histograms"]
after = [r for r in patch(op="update-recorder", recorder="slab-top", changes={"event": "entering"}).json()["scene"]["recorders"] if r["name"] == "slab-top"][0]["histograms"]
key = lambda h: json.dumps(h, sort_keys=True)
print(sorted(before, key=key) == sorted(after, key=key))
done(sorted(before, key=key) == sorted(after, key=key))
''')

# ---- studio sessions -------------------------------------------------------------------------
WDEMO = SDEMO + '''
TAIL = """components:
  haze: {scatterer: {coefficient: 2.0}}
recorders:
  out: {node: slab, event: escaping, histograms: {position: [x, y, [-1, 1, 3], [-1, 1, 2]], wavelength: [500, 600, 2]}}
"""
DOC = DOC.replace("    record: true\\n", "").replace("refractive-index: 1.5}", "refractive-index: 1.5, components: [haze]}").replace("location: [0, 0, 3]", "location: [1, 2, 3]") + TAIL
assert client.put("/api/document", json={"text": DOC}).status_code == 200
def session(**params):
    out = []
    with client.websocket_connect("/ws") as ws:
        ws.send_json(dict(cmd="run", seed=5, **params))
        while True:
            m = ws.receive_json()
            out.append(m)
            if m["type"] in ("done", "error") or len(out) > 60:
                return out
'''
bug("c21-last-sums", "C21", [("pvtrace/studio/server.py", "                sums += result.data[\"rec_sums\"]\n", "                sums = result.data[\"rec_sums\"]\n")],
    "a run of more than one bundle", "mean wavelength and angle are of the last bundle over the photons of all bundles",
    WDEMO + '''
one = session(rays=60, bundle=60)[-2]["recorders"]["out"]
many = session(rays=60, bundle=20)[-2]["recorders"]["out"]
print(one["mean_wavelength"], many["mean_wavelength"])
done(abs(one["mean_wavelength"] - many["mean_wavelength"]) < 1e-6 and abs(one["mean_angle"] - many["mean_angle"]) < 1e-6)
''')
bug("c21-path-budget", "C21", [("pvtrace/studio/server.py", "                    paths = _extract_paths(result, max_paths - sent_paths)\n", "                    paths = _extract_paths(result, max_paths)\n")],
    "a bundle which starts when some but not all of the paths asked for were sent", "more paths are sent than were asked for",
    WDEMO + '''
n = sum(len(m.get("paths", [])) for m in session(rays=60, bundle=20, record_every=5, max_paths=6))
print(n)
done(n == 6)
''')
bug("c21-heatmap-slice", "C21", [("pvtrace/studio/server.py", "                size = hist.a.bins * hist.b.bins\n", "                size = hist.a.bins * hist.a.bins\n")],
    "a heatmap with different numbers of bins along its axes followed by another histogram", "the heatmap's values contain those of the next histogram",
    WDEMO + '''
h = session(rays=60, bundle=20)[-2]["recorders"]["out"]["histograms"]
print(h)
done(len(h[0]["values"]) == 6 or len(h[1]["values"]) == 6)
''')
bug("c21-overshoot", "C21", [("pvtrace/engine/api.py", "        n = min(bundle, num_rays - traced)\n", "        n = min(bundle, num_rays)\n")],
    "a number of photons which is not a multiple of the bundle", "more photons are traced and reported than were asked for",
    WDEMO + '''
m = session(rays=50, bundle=20)
print([x.get("traced") for x in m])
done(m[-2]["traced"] == 50)
''')

# ---- live view -------------------------------------------------------------------------------
VDEMO = '''
import sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import meshcat.visualizer as mv
class Window:
    def __init__(self, *a, **kw):
        self.web_url = self.zmq_url = "none"
        self.objects, self.matrices = {}, {}
    def send(self, command):
        d = command.lower()
        p = d["path"]
        if d["type"] == "set_object":
            self.objects[p] = d["object"]
        elif d["type"] == "set_transform":
            self.matrices[p] = np.array(d["matrix"], float).reshape(4, 4).T
        elif d["type"] == "delete":
            for k in [k for k in self.objects if k == p or k.startswith(p + "/")]:
                del self.objects[k]
mv.ViewerWindow = Window
from pvtrace import *
from pvtrace.light.event import Event
from pvtrace.light.ray import Ray
def lines(w):
    return sum(o["object"]["type"] == "Line" for o in w.objects.values())
def points(z0, events):
    return [(Ray((0.0, 0.0, z0 + i), (0.0, 0.0, 1.0), 500.0 + 40 * i), e) for i, e in enumerate(events)]
G, T, R, A, E, X = Event.GENERATE, Event.TRANSMIT, Event.REFLECT, Event.ABSORB, Event.EMIT, Event.EXIT
'''
bug("c22-restarted-names", "C22", [("pvtrace/scene/renderer.py", "        vis = self.vis\n        vis.delete()\n", "        vis = self.vis\n        vis.delete()\n        self.added_index = 0\n")],
    "clearing the view after histories were shown, showing a ray, then further histories", "evicting a history of before the clearing removes objects shown after it",
    VDEMO + '''
r = MeshcatRenderer(zmq_url="none", max_histories=3)
for k in range(3):
    r.add_history(points(k, (G, R, X)))
r.remove(None)
r.add_ray(Ray((0.0, 0.0, 0.0), (1.0, 0.0, 0.0), 500.0), 1.0)
for k in range(3):
    r.add_history(points(k, (G, R, X)))
print(lines(r.vis.window))
sys.exit(lines(r.vis.window) < 5)
''')
bug("c22-newest-evicted", "C22", [("pvtrace/scene/renderer.py", "            ids_to_remove = self.ray_histories.popleft()\n", "            ids_to_remove = self.ray_histories.pop()\n")],
    "more histories than the view keeps", "the newest history disappears and the first ones remain for ever",
    VDEMO + '''
r = MeshcatRenderer(zmq_url="none", max_histories=3)
first = r.add_history(points(0, (G, R, X)))
for k in range(6):
    last = r.add_history(points(k, (G, R, X)))
w = r.vis.window
has = lambda i: "/meshcat/" + i in w.objects
print(sorted(w.objects), first, last)
sys.exit(not (has(last[0]) and not has(first[0])))
''')
bug("c22-arrival-colour", "C22", [("pvtrace/scene/renderer.py", "            start_ray, end_ray = start_part[0], end_part[0]\n            nanometers = start_ray.wavelength\n            start = start_ray.position\n            end = end_ray.position\n            if world",
      "            start_ray, end_ray = start_part[0], end_part[0]\n            nanometers = end_ray.wavelength\n            start = start_ray.position\n            end = end_ray.position\n            if world")],
    "a photon absorbed and emitted again", "the segment at whose end the wavelength changes is drawn in the colour of the next",
    VDEMO + '''
from pvtrace.light.utils import wavelength_to_hex_int
r = MeshcatRenderer(zmq_url="none")
ids = r.add_history(points(0, (G, R, R, X)), baubles=False)
w = r.vis.window
o = w.objects["/meshcat/" + ids[0]]
c = [m.get("color") for m in o["materials"]][0]
print(c, wavelength_to_hex_int(500.0))
sys.exit(c != wavelength_to_hex_int(500.0))
''')
bug("c22-cylinder-axes", "C22", [("pvtrace/scene/renderer.py", "            transform[:, [1, 2]] = transform[:, [2, 1]]\n", "            transform[:3, :3] = transform[[0, 2, 1], :3]\n")],
    "a cylinder which is rotated", "the cylinder is drawn along another axis than it has",
    VDEMO + '''
world = Node("world", geometry=Sphere(10.0, material=Material(1.0)))
c = Node("c", parent=world, geometry=Cylinder(2.0, 0.5, material=Material(1.5)))
c.rotate(np.pi / 2, (0, 1, 0))
r = MeshcatRenderer(zmq_url="none")
r.render(Scene(world))
M = [m for p, m in r.vis.window.matrices.items()][0]
axis = M[:3, 1]
print(axis)
sys.exit(int(abs(abs(axis[0]) - 1) > 1e-6))
''')

# ---- the studio page -----------------------------------------------------------------------------
PDEMO = r'''//page
// the page on a stand-in for the browser and a made-up server
import { Page, Event, settle, THREE } from "./host.mjs";
const at = (x, y, z) => [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, x, y, z, 1];
const HEAT = { kind: "heatmap", prop_a: "x", prop_b: "y", range_a: [-1, 1, 3], range_b: [-1.5, 1.5, 2] };
const RUNHEAT = { kind: "heatmap", prop_a: "x", prop_b: "y", edges_a: [-1, -1 / 3, 1 / 3, 1], edges_b: [-1.5, 0, 1.5] };
class Server {
  constructor() { this.text = "nodes:\n  slab: {location: [0, 0, 0.3]}\n"; this.event = "escaping"; }
  get where() { return JSON.parse(/location: (\[.*?\])/.exec(this.text)[1]); }
  scene() {
    const l = this.where, event = this.event;
    return {
      nodes: [{ name: "world", type: "box", params: [20, 20, 20], matrix: at(0, 0, 0), root: true }, { name: "slab", type: "box", params: [2, 3, 1], matrix: at(...l), root: false }],
      lights: [{ name: "lamp", matrix: at(0, 0, 3) }],
      recorders: ["top", "low"].map((name, i) => ({ name, node: "slab", event, facet: [0, 0, 1 - 2 * i], auto: false, histograms: [HEAT] })),
      spec: { nodes: { world: { box: { size: [20, 20, 20] } }, slab: { location: l, box: { size: [2, 3, 1], material: { "refractive-index": 1.5 } } }, lamp: { location: [0, 0, 3], direction: [0, 0, -1], light: { wavelength: 555 } } }, components: {}, recorders: {} },
    };
  }
  answer(r) {
    const b = r.body ? JSON.parse(r.body) : {};
    let body = { text: this.text };
    if (r.method === "PUT") { this.text = b.text; body = { ok: true, scene: this.scene() }; }
    if (r.url === "/api/patch") {
      if (b.op === "move" || b.op === "set") this.text = this.text.replace(/location: \[.*?\]/, `location: ${JSON.stringify(b.world_position || b.value)}`);
      if (b.op === "update-recorder") this.event = b.changes.event || this.event;
      body = { ok: true, text: this.text, scene: this.scene() };
    }
    return { status: 200, body };
  }
}
const server = new Server(), runs = [];
const open = async (storage) => { const p = new Page({ storage, said: (m) => { if (m.cmd === "run") runs.push({ text: server.text, event: server.event }); } }); await drain(p); return p; };
async function drain(p) {
  for (let k = 0; k < 30; k++) {
    await settle();
    if (!p.requests.length) return;
    p.requests[0].answer = server.answer(p.requests[0]);
    p.reply(p.requests[0]);
  }
}
const started = (p, total) => p.socket.message({ type: "started", total, histograms: { top: { histograms: [RUNHEAT] }, low: { histograms: [RUNHEAT] } } });
const rec = (values) => ({ rays: values.reduce((a, b) => a + b, 0), crossings: 9, mean_wavelength: 555, mean_angle: 0.1, histograms: [{ values, shape: [3, 2] }] });
const bundle = (p, traced, total, top, low, paths = []) => p.socket.message({ type: "bundle", traced, total, rays_per_second: 1e5, recorders: { top: rec(top), low: rec(low) }, paths });
const end = (bad, why) => { console.log(bad ? "WRONG: " + why : "ok"); process.exit(bad ? 1 : 0); };
'''
APP = "pvtrace/studio/static/app.js"
bug("c23-reactive-early", "C23", [(APP, "    if (await applyDocument()) startRun();\n  }, 700);", "    applyDocument();\n    startRun();\n  }, 700);")],
    "reactive mode, and the run command reaching the server before the document does", "the run is of the document before the edit",
    PDEMO + '''
const p = await open();
p.set(p.$("reactive"), true);
p.cm.type((t) => t + "# typed\\n");
for (const t of p.timers.slice()) p.fire(t);
await drain(p);
const last = runs[runs.length - 1];
end(!last || !last.text.includes("# typed"), "the run is of an earlier document");
''')
bug("c23-recorder-run-early", "C23", [(APP, '''    async (value) => {
      if (await patch({ op: "update-recorder", recorder: name,
                        changes: { event: value } })) {
        startRun();
      }
    });''', '''    (value) => {
      patch({ op: "update-recorder", recorder: name,
              changes: { event: value } });
      startRun();
    });''')],
    "changing a recorder's event, and the run command reaching the server before the change", "the run is of the recorder as it was, or of a change which was refused",
    PDEMO + '''
const p = await open();
p.segment("recorders");
p.set(p.fields().event[0], "entering");
await drain(p);
end(runs.length !== 1 || runs[0].event !== "entering", "the run counts the event of before");
''')
bug("c23-throttled-drop", "C23", [(APP, '''      patch({
        op: "move",
        node: gizmo.object.userData.name,
        world_position: gizmo.object.position.toArray(),
      });
    }
''', '''      const last = {
        op: "move",
        node: gizmo.object.userData.name,
        world_position: gizmo.object.position.toArray(),
      };
      if (!document.getElementById("realtime").checked
          || performance.now() - lastRealtime >= 150) patch(last);
    }
''')],
    "real-time mode and a drop within 150 ms of a move which was sent", "the object stays displayed where it was dropped, the document has it where it was moments before",
    PDEMO + '''
const p = await open();
p.set(p.$("realtime"), true);
p.pick("slab");
p.gizmo.pointerDown();
p.now += 500;
p.gizmo.pointerMove([0, 0, 1]);
p.now += 20;
p.gizmo.pointerMove([0, 0, 2]);
p.gizmo.pointerUp();
await drain(p);
const shown = p.meshes("node").find((m) => m.userData.name === "slab").position.z;
end(Math.abs(shown - server.where[2]) > 1e-6, `shown at ${shown}, the document has ${server.where[2]}`);
''')
bug("c23-gizmo-kept", "C23", [(APP, "function renderScene(payload) {\n  gizmo.detach();\n", "function renderScene(payload) {\n"),
    (APP, "  gizmo.detach();\n  if (!selected.name) return;\n", "  if (gizmo.object?.userData.name !== selected.name) gizmo.detach();\n  if (!selected.name) return;\n"),
    (APP, "      gizmo.attach(mesh);\n", "      if (!gizmo.object) gizmo.attach(mesh);\n")],
    "a selected object which is dragged after the scene was drawn anew", "the gizmo stays with the object as it was before: it is at the old place, and a drag does not move what is shown",
    PDEMO + '''
const p = await open();
p.pick("slab");
p.set(p.fields().location[2], "2.5");
await drain(p);
p.gizmo.pointerDown();
p.gizmo.pointerMove([0, 0, 1]);
const shown = p.meshes("node").find((m) => m.userData.name === "slab").position.z;
end(Math.abs(shown - 3.5) > 1e-6, `the object is at ${shown} while it is dragged to 3.5`);
''')
bug("c24-path-budget", "C24", [(APP, "  pathGroup.clear();\n  pathCount = 0;\n", "  pathGroup.clear();\n")],
    "more than 400 paths over several runs", "later runs show no paths",
    PDEMO + '''
const p = await open();
const paths = [...Array(200).keys()].map((i) => ({ points: [[0, 0, i], [1, 0, i]], wavelengths: [555, 555] }));
for (let k = 0; k < 3; k++) { started(p, 200); bundle(p, 200, 200, [1, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0], paths); p.socket.message({ type: "done", elapsed: 1 }); }
let n = 0;
p.scene.traverse((o) => { if (o.type === "Line" && o.geometry.attributes.color) n++; });
end(n !== 200, `${n} paths shown`);
''')
bug("c24-scale-kept", "C24", [(APP, "function refreshHeatmaps() {\n  heatmapMax = 1;\n", "function refreshHeatmaps() {\n")],
    "a run of few photons after one of many", "the heat maps of the second run are dark, its fullest bin too",
    PDEMO + '''
const p = await open();
const top = () => p.meshes("recorder").find((m) => m.userData.name === "top").material.map.image.getContext("2d").calls.filter((c) => c.op === "draw").pop().calls.filter((c) => c.op === "image").pop().image.data;
const brightest = () => { const d = top(); let b = 0; for (let i = 0; i < d.length; i += 4) b = Math.max(b, d[i] + d[i + 1] + d[i + 2]); return b; };
started(p, 9000); bundle(p, 9000, 9000, [9000, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0]); p.socket.message({ type: "done", elapsed: 1 });
const first = brightest();
started(p, 9); bundle(p, 9, 9, [9, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0]);
end(brightest() !== first, `the fullest bin is ${brightest()} bright, it was ${first}`);
''')
bug("c24-readout-transposed", "C24", [(APP, "    const count = values[ia * nb + ib];\n", "    const count = values[ib * na + ia];\n")],
    "the pointer over a heat map which is not square", "the read-out gives another bin's count",
    PDEMO + '''
const p = await open();
p.segment("recorders");
started(p, 21); bundle(p, 21, 21, [1, 2, 3, 4, 5, 6], [0, 0, 0, 0, 0, 0]);
const canvas = p.$("inspector-fields").querySelectorAll("canvas")[0], r = canvas.getBoundingClientRect();
canvas.dispatchEvent(new Event("mousemove", { clientX: r.left + 0.9 * r.width, clientY: r.top + 0.9 * r.height }));
const t = p.$("bin-info").textContent;
end(!/\\b5 rays/.test(t), t);
''')
bug("c24-hidden-saved-early", "C24", [(APP, '''      if (!checked) view.hiddenOverlays.push(name);
      saveView();
      applyLayer();''', '''      saveView();
      if (!checked) view.hiddenOverlays.push(name);
      applyLayer();''')],
    "hiding a recorder's face and reloading the page", "the face is shown again",
    PDEMO + '''
let p = await open();
p.segment("recorders");
p.set(p.fields()["on face"][0], false);
p = await open(p.storage);
end(p.meshes("recorder").find((m) => m.userData.name === "top").visible, "the hidden face is shown after the reload");
''')
bug("c24-stale-tallies", "C24", [(APP, "      histogramMeta = message.histograms;\n      latest = {};\n", "      histogramMeta = message.histograms;\n")],
    "the announcement of a run after another has reported", "the inspector shows the former run's numbers as those of the new one",
    PDEMO + '''
const p = await open();
p.segment("recorders");
started(p, 21); bundle(p, 21, 21, [1, 2, 3, 4, 5, 6], [0, 0, 0, 0, 0, 0]); p.socket.message({ type: "done", elapsed: 1 });
started(p, 50);
const t = p.$("inspector-fields").textContent;
end(/21 rays/.test(t), t);
''')
