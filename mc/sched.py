"""A cooperative scheduler for real threads, and the explorer of its schedules.

Threads of the code under test run as real threads, one at a time. Every
operation on a shared object (thread start/join, event, queue, sleep) is a
scheduling point: the thread parks, and the controller decides which enabled
thread performs its operation next. `explore` enumerates all schedules by
stateless replay; executions which reach a state already visited are cut.

A state is (per thread: pending operation and history of operation results,
with idle polling cycles removed; contents of queues and events).
Threads are deterministic between points, so equal keys mean equal states
(assuming that a polling loop keeps no memory of how often it polled; runs
with long silences are explored separately).
"""
import _thread
import queue as _queue
import sys

Empty, Full = _queue.Empty, _queue.Full


POLLS = {"is_set", "empty", "full", "qsize", "sleep", "get", "wait", "alive"}


class Abort(BaseException):
    pass


class T:
    def __init__(self, sched, name, fn, daemon=False):
        self.sched, self.name, self.fn, self.daemon = sched, name, fn, daemon
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.error = None
        self.pending = ("begin", lambda: True)
        self.obs = []
        self.proc = None       # emulated process
        self.aborts = 0

    def key(self):
        return (self.name, self.done, None if self.done else self.pending[0], tuple(self.obs))


class Sched:
    def __init__(self):
        self.threads = []
        self.current = None
        self.ctl = _thread.allocate_lock()
        self.ctl.acquire()
        self.aborting = False
        self.objects = []
        self.byid = {}

    # ---- called by the harness -------------------------------------------------
    def spawn(self, name, fn, daemon=False, proc=None):
        t = T(self, name, fn, daemon)
        t.proc = proc
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        self.byid[_thread.get_ident()] = t
        t.lock.acquire()
        try:
            if not self.aborting:
                t.fn()
        except Abort:
            pass
        except BaseException as e:  # noqa
            t.error = e
        t.done = True
        self.ctl.release()

    def me(self):
        return self.byid.get(_thread.get_ident())

    # ---- called by the code under test through the stand-ins -------------------
    def point(self, op, enabled=None, effect=None, label=None):
        t = self.me()
        if t is None:                      # not a managed thread: just do it
            return effect() if effect else None
        t.pending = (op, enabled or (lambda: True))
        self._unroll(t, op)
        if self.aborting:
            self._abort(t)
        self.ctl.release()
        t.lock.acquire()
        if self.aborting:
            self._abort(t)
        try:
            r = effect() if effect else None
        except BaseException as e:
            self._observe(t, (op, type(e).__name__))
            raise
        self._observe(t, (op, label(r) if label else r))
        return r

    def _abort(self, t):
        t.aborts += 1
        if t.aborts > 500:                 # code that swallows everything: park for good
            t.done = True
            self.ctl.release()
            l = _thread.allocate_lock()
            l.acquire()
            l.acquire()
        raise Abort()

    def _observe(self, t, o):
        t.obs.append(o)

    def _unroll(self, t, op):
        """Back at an operation it already performed, with only idle polls in
        between: the thread is where it was."""
        obs, cut = t.obs, None
        for i in range(len(obs) - 1, -1, -1):
            o, r = obs[i]
            if o[0] not in POLLS or (o[0] == "get" and r != "Empty"):
                break
            if o == op:
                cut = i
        if cut is not None:
            del obs[cut:]

    # ---- controller -------------------------------------------------------------
    def key(self):
        return (tuple(t.key() for t in self.threads), tuple(o.state() for o in self.objects))

    def enabled(self):
        return [i for i, t in enumerate(self.threads) if not t.done and t.pending[1]()]

    def step(self, i):
        t = self.threads[i]
        self.current = t
        t.lock.release()
        self.ctl.acquire()

    def finished(self):
        return all(t.done for t in self.threads if not t.daemon)

    def abort(self):
        self.aborting = True
        for t in list(self.threads):
            if not t.done:
                t.lock.release()
                self.ctl.acquire()


# ---- stand-ins ------------------------------------------------------------------

def make(sched, capacity=None, silence=None):
    """Stand-in classes bound to one Sched. `silence`: [n] - the next n timed
    gets on an empty queue time out without another choice."""

    class Queue:
        def __init__(self, maxsize=0, *a, **k):
            self.items, self.puts = [], 0
            self.max = maxsize if capacity is None else capacity
            self.unfinished = 0
            self.n = len(sched.objects)
            sched.objects.append(self)

        def state(self):
            return tuple(s for s, _ in self.items)

        def _full(self):
            return self.max and self.max > 0 and len(self.items) >= self.max

        def put(self, item, block=True, timeout=None):
            t = sched.me()
            can = lambda: (not block) or timeout is not None or not self._full()

            def do():
                if self._full():
                    raise Full()
                # the serial number names the item independently of the order of the puts
                k = (t.name if t else "", getattr(t, "nput", 0))
                if t:
                    t.nput = getattr(t, "nput", 0) + 1
                self.items.append((k, item))
                self.unfinished += 1
            return sched.point(("put", self.n), can, do)

        def put_nowait(self, item):
            return self.put(item, False)

        def get(self, block=True, timeout=None):
            can = lambda: (not block) or timeout is not None or bool(self.items)
            got = []

            def do():
                if not self.items:
                    raise Empty()
                s, item = self.items.pop(0)
                got.append(s)
                return item
            if silence and not self.items and timeout is not None and block:
                if silence[0] > 0:
                    silence[0] -= 1
                    raise Empty()
            return sched.point(("get", self.n), can, do, lambda r: got[0])

        def get_nowait(self):
            return self.get(False)

        def empty(self):
            return sched.point(("empty", self.n), None, lambda: not self.items)

        def full(self):
            return sched.point(("full", self.n), None, lambda: bool(self._full()))

        def qsize(self):
            return sched.point(("qsize", self.n), None, lambda: len(self.items))

        def task_done(self):
            def do():
                self.unfinished -= 1
            return sched.point(("task_done", self.n), None, do)

        def join(self):
            return sched.point(("qjoin", self.n), lambda: self.unfinished == 0)

        def close(self):
            pass

        def join_thread(self):
            pass

        cancel_join_thread = join_thread

    class Event:
        def __init__(self):
            self.flag = False
            self.n = len(sched.objects)
            sched.objects.append(self)

        def state(self):
            return self.flag

        def is_set(self):
            return sched.point(("is_set", self.n), None, lambda: self.flag)

        isSet = is_set

        def set(self):
            def do():
                self.flag = True
            return sched.point(("set", self.n), None, do)

        def clear(self):
            def do():
                self.flag = False
            return sched.point(("clear", self.n), None, do)

        def wait(self, timeout=None):
            return sched.point(("wait", self.n), lambda: timeout is not None or self.flag, lambda: self.flag)

    class Lock:
        def __init__(self, reentrant=False):
            self.owner, self.depth, self.re = None, 0, reentrant
            self.n = len(sched.objects)
            sched.objects.append(self)

        def state(self):
            return (self.owner.name if self.owner else None, self.depth)

        def acquire(self, blocking=True, timeout=-1):
            t = sched.me()
            free = lambda: self.owner is None or (self.re and self.owner is t)

            def do():
                if not free():
                    return False
                self.owner, self.depth = t, self.depth + 1
                return True
            return sched.point(("acquire", self.n), lambda: not blocking or timeout >= 0 or free(), do)

        def release(self):
            def do():
                self.depth -= 1
                if self.depth <= 0:
                    self.owner, self.depth = None, 0
            return sched.point(("release", self.n), None, do)

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class Thread:
        count = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            Thread.count += 1
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            self.name = name or f"thread-{Thread.count}"
            self.daemon = bool(daemon)
            self.t = None

        def run(self):
            if self.target:
                self.target(*self.args, **self.kwargs)

        def start(self):
            me = sched.me()
            self.t = sched.spawn(f"{self.name}#{len(sched.threads)}", self.run, self.daemon, me.proc if me else None)

        def join(self, timeout=None):
            return sched.point(("join", self.t.name), lambda: timeout is not None or self.t.done)

        def is_alive(self):
            return sched.point(("alive", self.t.name), None, lambda: not self.t.done)

        def setDaemon(self, d):
            self.daemon = d

        ident = property(lambda self: id(self))

    class Manager:
        def __init__(self, *a, **k):
            pass
        def dict(self, *a, **k):
            return dict(*a, **k)

        def list(self, *a):
            return list(*a)

        def Lock(self):
            return Lock()

        def RLock(self):
            return Lock(True)

        def shutdown(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    Manager.Queue = Manager.JoinableQueue = Queue
    Manager.Event = Event

    def sleep(s):
        return sched.point(("sleep",))

    return dict(Queue=Queue, Event=Event, Thread=Thread, Manager=Manager, sleep=sleep, Lock=Lock)


class Explorer:
    """explore(run) where run(sched) sets up one execution (spawns the first
    thread) and returns a function judging it once finished."""

    def __init__(self, max_steps=4000, max_states=10 ** 7, deadline=None):
        self.max_steps, self.max_states, self.deadline = max_steps, max_states, deadline
        self.visited = {}
        self.edges = []
        self.terminal = set()
        self.execs = self.complete = self.steps = 0
        self.bad = []
        self.truncated = False

    def run(self, setup, prefix):
        s = Sched()
        judge = setup(s)
        path = list(prefix)
        pos, prev = 0, None
        new = []
        try:
            while True:
                if s.finished():
                    self.complete += 1
                    k = ("done", hash(s.key()))
                    if prev is not None:
                        self.edges.append((prev, k))
                    self.terminal.add(k)
                    c = judge(s)
                    if c:
                        self.bad.append((c, list(path[:pos])))
                    return new
                en = s.enabled()
                if not en:
                    w = [(t.name, t.pending[0]) for t in s.threads if not t.done]
                    self.bad.append((f"deadlock: nothing can run, waiting: {w}", list(path[:pos])))
                    return new
                k = hash(s.key())
                if prev is not None and pos >= len(prefix):
                    self.edges.append((prev, k))
                if pos < len(prefix):
                    c = path[pos]
                    if c not in en:
                        self.bad.append(("execution is not deterministic", list(path[:pos])))
                        return new
                else:
                    if k in self.visited:
                        return new
                    self.visited[k] = len(en)
                    # prefer to keep running the same thread
                    cur = s.threads.index(s.current) if s.current in s.threads else en[0]
                    c = cur if cur in en else en[0]
                    for o in en:
                        if o != c:
                            new.append(tuple(path[:pos]) + (o,))
                    path = path[:pos] + [c]
                prev = k
                s.step(c)
                pos += 1
                self.steps += 1
                if pos > self.max_steps:
                    self.bad.append(("execution does not end", list(path[:40])))
                    return new
        finally:
            s.abort()

    def once(self, setup, choose=None, max_steps=10 ** 6):
        """One execution without recording states; `choose(i, enabled, sched)`
        picks (default: keep running the same thread until it polls)."""
        s = Sched()
        judge = setup(s)
        self.execs += 1
        try:
            for i in range(max_steps):
                if s.finished():
                    self.complete += 1
                    c = judge(s)
                    if c:
                        self.bad.append((c, ["single schedule"]))
                    return
                en = s.enabled()
                if not en:
                    self.bad.append(("deadlock: nothing can run", ["single schedule"]))
                    return
                if choose:
                    c = choose(i, en, s)
                else:
                    # keep running the same thread; when it polls, the next one
                    cur = s.threads.index(s.current) if s.current in s.threads else en[0]
                    c = cur if cur in en else en[0]
                    if s.threads[c].pending[0][0] in POLLS and s.current is not None:
                        c = next((x for x in en if x > cur), en[0])
                s.step(c)
                self.steps += 1
            self.bad.append(("execution does not end", ["single schedule"]))
        finally:
            s.abort()

    def explore(self, setup, roots=((),)):
        import time
        stack = list(roots)
        while stack:
            if len(self.visited) >= self.max_states or (self.deadline and time.time() > self.deadline):
                self.truncated = True
                break
            if len(self.bad) > 3:
                break
            self.execs += 1
            stack.extend(self.run(setup, stack.pop()))
        if not self.truncated and not self.bad:
            self.check_termination()
        return self

    def check_termination(self):
        """Every visited state can reach the end of the execution."""
        back = {}
        for a, b in self.edges:
            back.setdefault(b, []).append(a)
        seen = set(self.terminal)
        todo = list(seen)
        while todo:
            x = todo.pop()
            for a in back.get(x, ()):
                if a not in seen:
                    seen.add(a)
                    todo.append(a)
        stuck = [k for k in self.visited if k not in seen]
        if stuck:
            self.bad.append((f"{len(stuck)} of {len(self.visited)} states can never reach the end (the tool hangs)", []))
