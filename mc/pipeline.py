"""The recording pipeline (command line `simulate`) under the cooperative
scheduler: real CLI, real Scene.simulate, real tracing, real writer and
database; processes, threads, queues and sleeping are the stand-ins of sched."""
import os
import sqlite3
import sys

from mc import base, choice, pool, sched as S

SCENE = """
version: "1.0"
nodes:
  world:
    sphere:
      radius: 10.0
      material:
        refractive-index: 1.0
  slab:
    box:
      size: [2, 2, 1]
      material:
        refractive-index: 1.5
        components: [ink]
  lamp:
    location: [0.1, 0.2, 0.3]
    light:
      mask:
        position:
          rect: [0.45, 0.45]
        direction:
          cone:
            half-angle: 20
  beam:
    location: [3, 0, 0]
    light:
      wavelength: 600.0
      mask:
        direction:
          cone:
            half-angle: 10
components:
  ink:
    absorber:
      coefficient: 1.0
"""

PHI = 0.6180339887498949


def frac(x):
    return x - int(x)


class Fault:
    """The k-th row written to a table is refused by the database, and every
    later one as well (the disk is full): a temporary trigger on whichever
    connection the code opens on a database that has the tables."""

    def __init__(self, table, k):
        self.table, self.k, self.n, self.fired = table, k, 0, 0

    def connect(self, real):
        def connect(*a, **kw):
            con = real(*a, **kw)
            try:
                have = con.execute("SELECT name FROM sqlite_master WHERE type = 'table'").fetchall()
                if (self.table,) in have:
                    con.create_function("pvt_row", 0, self.row)
                    con.execute(f"CREATE TEMP TRIGGER pvt_full BEFORE INSERT ON main.{self.table} BEGIN SELECT pvt_row(); END")
                    con.commit()
            except sqlite3.Error:
                pass
            return con
        return connect

    def row(self):
        self.n += 1
        if self.n >= self.k:
            self.fired += 1
            raise RuntimeError("disk full")
        return 0


class Draws:
    """Random draws are a function of the emulated process and the position in
    its stream, whatever the schedule."""

    def __init__(self, sched, salt=0.0):
        self.s, self.n, self.salt = sched, {}, salt

    def who(self):
        t = self.s.me()
        return t.proc if t is not None and t.proc is not None else "main"

    def draw(self):
        w = self.who()
        i = self.n.get(w, 0)
        self.n[w] = i + 1
        b = 0.0 if w == "main" else 0.37 * (1 + w)
        return 0.003 + 0.994 * frac(self.salt + b + PHI * (i + 1) + 0.113 * ((i * 7) % 11))


class PoolFactory:
    """multiprocessing.Pool: every process is a thread of the scheduler."""

    def __init__(self, sched, byref, assign=None, interrupt=None, recycle=False):
        self.s, self.byref, self.assign, self.interrupt = sched, byref, assign, interrupt
        self.started = 0

    def __call__(self, processes=None, *a, **k):
        return ThreadPool(self, processes or 1)


class ThreadPool:
    def __init__(self, f, n):
        self.f, self.n, self.tasks, self.count = f, n, {}, 0
        self.threads = {}
        self.closed = False

    def _proc(self, p):
        if p not in self.threads:
            q = self.tasks.setdefault(p, [])

            def body():
                while True:
                    self.f.s.point(("task", p), lambda: bool(q), None)
                    i, fn, args, kw, r = q.pop(0)
                    try:
                        fn, args, kw = pool.copy_across((fn, args, kw), self.f.byref())
                        r.value = pool.copy_across(fn(*args, **kw), self.f.byref())
                    except Exception as e:  # noqa
                        r.error = e
                    r.done = True
            # workers are daemons: they wait for tasks for ever
            self.threads[p] = self.f.s.spawn(f"proc{p}", body, True, p)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        i = self.count
        self.count += 1
        a = self.f.assign
        p = (a[i] if a and i < len(a) else i) % self.n
        r = Result(self)
        self.tasks.setdefault(p, []).append((i, fn, args, kwds, r))
        self._proc(p)
        return r

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def _all(self, fn, argss):
        return [self.apply_async(fn, a) for a in argss]

    def map(self, fn, it, chunksize=None):
        return [r.get() for r in self._all(fn, [(x,) for x in it])]

    def starmap(self, fn, it, chunksize=None):
        return [r.get() for r in self._all(fn, [tuple(x) for x in it])]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    imap_unordered = imap

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return pool._All(self._all(fn, [(x,) for x in it]))

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return pool._All(self._all(fn, [tuple(x) for x in it]))

    def close(self):
        self.closed = True

    def terminate(self):
        pass

    def join(self):
        self.f.s.point(("pooljoin",), lambda: all(not q for q in self.tasks.values()) and
                       all(t.pending[0][0] == "task" or t.done for t in self.threads.values()))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Result:
    def __init__(self, p):
        self.p, self.done, self.value, self.error = p, False, None, None

    def get(self, timeout=None):
        f = self.p.f
        if f.interrupt is not None and not getattr(f, "raised", False):
            # the user interrupts once all photons have been traced
            def all_done():
                return all(not q for q in self.p.tasks.values()) and \
                    all(t.pending[0][0] == "task" for t in self.p.threads.values())
            f.s.point(("result",), all_done)
            f.raised = True
            raise f.interrupt("stopped")
        f.s.point(("result",), lambda: self.done)
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        self.p.f.s.point(("result",), lambda: self.done or timeout is not None)

    def ready(self):
        return self.done

    def successful(self):
        return self.done and self.error is None


class Renderer:
    made = []

    def __init__(self, *a, **k):
        self.calls = []
        self.vis = self
        Renderer.made.append(self)

    def open(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self.calls.append((name, a))


def prepare():
    """Import everything first, then patch per execution."""
    choice.install()
    import pvtrace.cli.main as m  # noqa
    from pvtrace.algorithm import photon_tracer
    import typer.main
    import click.testing
    P = type("P", (), {})()
    P.main, P.pt = m, photon_tracer
    P.orig_step = photon_tracer.step_forward
    P.parse_cache = {}
    P.orig_parse = getattr(m, "parse", None)
    if P.orig_parse is not None:
        def parse(path, *a, **k):
            key = "scene"          # always the same contents
            if key not in P.parse_cache:
                P.parse_cache[key] = P.orig_parse(path, *a, **k)
            return P.parse_cache[key]
        m.parse = parse
    if hasattr(m, "MeshcatRenderer"):
        m.MeshcatRenderer = Renderer
    P.step_refs = [(mod, n) for mn, mod in list(sys.modules.items()) if mn.startswith("pvtrace")
                   for n, v in list(vars(mod).items()) if v is P.orig_step]
    P.runner = click.testing.CliRunner()
    P.cmd = typer.main.get_command(m.app)
    P.memo = {}
    return P


def setup_factory(P, d, photons, args, capacity, assign=None, interrupt=None, silence=0, salt=0.0, check_db=None,
                  name=None, stream=None, fault=None):
    """Returns setup(sched) for the explorer. `check_db(path, delivered, result)`
    judges the finished execution."""
    import multiprocessing
    import threading
    import time
    yml = os.path.join(d, "scene.yml")
    if not os.path.exists(yml):
        with open(yml, "w") as f:
            f.write(SCENE)
    count = [0]

    def setup(s):
        if name is None:
            # a new name for every execution: a cut execution may have left the old one open
            for x in os.listdir(d):
                if x.startswith("x"):
                    os.remove(os.path.join(d, x))
            count[0] += 1
            db = os.path.join(d, f"x{count[0]}.sqlite3")
            link = os.path.join(d, f"x{count[0]}.yml")
            os.link(yml, link)
        else:
            db, link = os.path.join(d, name + ".sqlite3"), os.path.join(d, name + ".yml")
        queues = []
        sil = [silence] if silence else None
        fk = S.make(s, capacity, sil)
        draws = Draws(s, salt)
        choice.DRIVER.draw = draws.draw

        class Q(fk["Queue"]):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                queues.append(self)

            def put(self, item, block=True, timeout=None):
                super().put(item, block, timeout)
                if stream is not None:
                    stream.append(draws.who())
        Man = type("Manager", (fk["Manager"],), {"Queue": Q, "JoinableQueue": Q})
        delivered = {}      # (process, call) -> list of (ray, event, metadata) traced
        calls = {}

        def step_forward(*a, **k):
            w = draws.who()
            i = calls.get(w, 0)
            calls[w] = i + 1
            mk = (salt, w, i, draws.n.get(w, 0), photons, repr(assign))
            if mk not in P.memo:
                out = list(P.orig_step(*a, **k))
                P.memo[mk] = (out, draws.n.get(w, 0))
            out, n = P.memo[mk]
            draws.n[w] = n
            rec = delivered.setdefault((w, i), [])
            for item in out:
                rec.append(item)
                yield item
        pf = PoolFactory(s, lambda: queues, assign, interrupt)
        saved = (multiprocessing.Manager, multiprocessing.Pool, multiprocessing.Queue, threading.Thread,
                 threading.Event, time.sleep, os.getpid)
        real_sleep, real_pid = time.sleep, os.getpid
        flt = Fault(*fault) if fault else None
        saved += (sqlite3.connect,)
        if flt:
            sqlite3.connect = flt.connect(sqlite3.connect)

        def sleep(x):
            return fk["sleep"](x) if s.me() else real_sleep(x)

        def getpid():
            t = s.me()
            return 70000 + t.proc if t is not None and t.proc is not None else real_pid()
        multiprocessing.Manager, multiprocessing.Pool, multiprocessing.Queue = Man, pf, Q
        threading.Thread, threading.Event, time.sleep, os.getpid = fk["Thread"], fk["Event"], sleep, getpid
        for mod, n in P.step_refs:
            setattr(mod, n, step_forward)
        P.restore = lambda: unpatch(P, saved)
        Renderer.made = []
        res = []

        def body():
            res.append(P.runner.invoke(P.cmd, ["simulate", link, "--rays", str(photons), "--overwrite"] + args))
        s.spawn("main", body)

        def judge(s):
            if flt is not None and flt.fired:
                sqlite3.connect = saved[-1]
                return check_db.failed(res[0] if res else None)
            errs = [t for t in s.threads if t.error is not None]
            if errs:
                return f"{errs[0].name} ended with {type(errs[0].error).__name__}: {errs[0].error}"
            return check_db(db, delivered, res[0] if res else None)
        return judge

    return setup


def unpatch(P, saved):
    import multiprocessing
    import threading
    import time
    (multiprocessing.Manager, multiprocessing.Pool, multiprocessing.Queue, threading.Thread, threading.Event,
     time.sleep, os.getpid, sqlite3.connect) = saved
    for mod, n in P.step_refs:
        setattr(mod, n, P.orig_step)
    choice.DRIVER.__dict__.pop("draw", None)


def record(ray, event, meta):
    meta = meta or {}
    n = meta.get("normal") or (None, None, None)
    return tuple(float(x) for x in ray.position) + tuple(float(x) for x in ray.direction) + (
        float(ray.wavelength), ray.source, float(ray.travelled), float(ray.duration), event.name,
        meta.get("component"), meta.get("hit"), meta.get("container"), meta.get("adjacent")) + tuple(
            None if x is None else float(x) for x in n)


def read_db(path):
    """[(throw_id, record)] in the order of storage, and the orphans."""
    con = sqlite3.connect(path)
    rays = con.execute("SELECT rowid, * FROM ray ORDER BY rowid").fetchall()
    evs = con.execute("SELECT rowid, * FROM event ORDER BY rowid").fetchall()
    con.close()
    by = {}
    for e in evs:
        by.setdefault(e[1], []).append(e)
    out, orphans = [], []
    for r in rays:
        e = by.pop(r[0], [])
        if len(e) != 1:
            orphans.append(("ray", r[0], len(e)))
            continue
        e = e[0]
        out.append((r[1], tuple(r[2:9]) + tuple(r[9:12]) + (e[2], e[3], e[4], e[5], e[6]) + tuple(e[8:11])))
    orphans += [("event", k, len(v)) for k, v in by.items()]
    return out, orphans


def group(rows):
    g = {}
    for t, r in rows:
        g.setdefault(t, []).append(r)
    return g
