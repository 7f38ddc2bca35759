"""A controlled multiprocessing.Pool: tasks run in this process, in the order
and on the (emulated) worker processes the driver chooses."""
import itertools
import os
import pickle

import numpy as np


class Sched:
    """assign[i]: process of task i; order: the order in which tasks run."""

    def __init__(self, assign=(), order=()):
        self.assign, self.order = list(assign), list(order)
        self.tasks = 0
        self.pools = 0
        self.log = []


class Result:
    def __init__(self, pool):
        self.pool, self.done, self.value, self.error = pool, False, None, None

    def get(self, timeout=None):
        self.pool._run()
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        self.pool._run()

    def ready(self):
        return self.done

    def successful(self):
        return self.done and self.error is None


class Opaque:
    """Holds an object that crosses the process boundary by reference."""
    table = {}

    def __init__(self, obj):
        self.key = id(obj)
        Opaque.table[self.key] = obj


class Pickler(pickle.Pickler):
    byref = ()

    def persistent_id(self, obj):
        for i, o in enumerate(self.byref):
            if obj is o:
                return i
        return None


class Unpickler(pickle.Unpickler):
    byref = ()

    def persistent_load(self, pid):
        return self.byref[pid]


def copy_across(obj, byref):
    import io
    f = io.BytesIO()
    p = Pickler(f, protocol=pickle.HIGHEST_PROTOCOL)
    p.byref = byref
    p.dump(obj)
    f.seek(0)
    u = Unpickler(f)
    u.byref = byref
    return u.load()


class FakePool:
    """Factory bound to one Sched; `byref` objects (queues) are proxies."""

    def __init__(self, sched, byref=()):
        self.sched, self.byref = sched, byref

    def __call__(self, processes=None, *a, **k):
        self.sched.pools += 1
        return _Pool(self.sched, self.byref, processes or 1)


class _Pool:
    def __init__(self, sched, byref, processes):
        self.s, self.byref, self.n = sched, byref, processes
        self.pending, self.base = [], {}
        self.state = np.random.get_state()
        self.rng = {}
        self.count = 0

    def _submit(self, fn, args, kwds):
        r = Result(self)
        self.pending.append((self.count, fn, args, kwds, r))
        self.count += 1
        self.s.tasks += 1
        return r

    def _run(self):
        todo, self.pending = self.pending, []
        if not todo:
            return
        rank = {t: i for i, t in enumerate(self.s.order)}
        todo.sort(key=lambda x: rank.get(x[0], x[0]))
        parent = np.random.get_state()
        getpid = os.getpid
        try:
            for i, fn, args, kwds, r in todo:
                p = self.s.assign[i] if i < len(self.s.assign) else i % self.n
                p %= self.n
                np.random.set_state(self.rng.get(p, self.state))
                os.getpid = lambda p=p: 70000 + p
                self.s.log.append((i, p))
                try:
                    f, a, k = copy_across((fn, args, kwds), self.byref)
                    r.value = copy_across(f(*a, **k), self.byref)
                except Exception as e:
                    r.error = e
                r.done = True
                self.rng[p] = np.random.get_state()
        finally:
            os.getpid = getpid
            np.random.set_state(parent)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        r = self._submit(fn, args, kwds)
        return r

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def _many(self, fn, argss):
        return [self._submit(fn, a, {}) for a in argss]

    def map(self, fn, it, chunksize=None):
        return [r.get() for r in self._many(fn, [(x,) for x in it])]

    def starmap(self, fn, it, chunksize=None):
        return [r.get() for r in self._many(fn, [tuple(x) for x in it])]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    imap_unordered = imap

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        rs = self._many(fn, [(x,) for x in it])
        return _All(rs)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _All(self._many(fn, [tuple(x) for x in it]))

    def close(self):
        pass

    def terminate(self):
        self.pending = []

    def join(self):
        self._run()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _All:
    def __init__(self, rs):
        self.rs = rs

    def get(self, timeout=None):
        return [r.get() for r in self.rs]

    def wait(self, timeout=None):
        for r in self.rs:
            r.wait()


def assignments(n, procs):
    """Assignments of n tasks to procs processes up to renaming processes."""
    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for p in range(min(m + 1, procs)):
            yield from rec(prefix + [p], max(m, p + 1))
    return list(rec([], 0))


def orders(n, assign):
    """Orders of the tasks: any, since a pool hands tasks out in turn but they
    finish (and deliver) in any order; tasks of one process keep their order."""
    out = []
    for o in itertools.permutations(range(n)):
        ok = all(o.index(a) < o.index(b) for a in range(n) for b in range(a + 1, n) if assign[a] == assign[b])
        if ok:
            out.append(o)
    return out
