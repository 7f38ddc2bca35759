"""C08: every assignment of Scene.simulate's tasks to pool processes and every
order in which they run, for all sizes to a bound, on a controlled pool."""
from mc import base
import collections
import contextlib
import io
import itertools
import multiprocessing
import numpy as np
from mc import pool as P, scenes, pvbuild

L = None


def scene(kind):
    global L
    L = pvbuild.load()
    Node, Light = L["Node"], L["Light"]
    from pvtrace.material.utils import isotropic
    C, Material, Box, Sphere = L["C"], L["Material"], L["Box"], L["Sphere"]
    world = Node(name="world", geometry=Sphere(9.0, material=Material(1.0)))
    if kind == "empty":
        pass
    else:
        comps = [C.Luminophore(np.array(scenes.TRI_ABS), emission=np.array(scenes.GRID_EMS), quantum_yield=0.8, name="dye"),
                 C.Absorber(0.3, name="bg"), C.Scatterer(0.5, name="fog"), C.Reactor(0.2, name="rx")]
        block = Node(name="block", parent=world, geometry=Box((4.0, 4.2, 2.2), material=Material(1.6, components=comps)))
        block.rotate(0.3, (1, 0.2, 0.1))
        ball = Node(name="ball", parent=block, geometry=Sphere(0.6, material=Material(1.1, components=[C.Absorber(0.2, name="ink")])))
        ball.translate((0.3, 0.2, 0.1))
    l1 = Node(name="l1", parent=world, light=Light(direction=isotropic, name="inside"))
    l1.translate((0.1, 0.2, 0.3))
    if kind != "one":
        l2 = Node(name="l2", parent=world, light=Light(wavelength=wave480, direction=isotropic, name="outside"))
        l2.translate((1.0, 2.0, -4.0))
    if kind == "lambda":
        pass
    return L["Scene"](world)


def wave480():
    return 480.0


def canon(ray, event, meta=None):
    m = None if meta is None else tuple(sorted((k, tuple(v) if isinstance(v, (tuple, list, np.ndarray)) else v) for k, v in meta.items()))
    return (event.name, tuple(map(float, ray.position)), tuple(map(float, ray.direction)), float(ray.wavelength),
            float(ray.travelled), float(ray.duration), ray.source), m


class FakeQueue:
    """Process-shared FIFO; items cross the process boundary by value."""

    def __init__(self):
        self.items = []

    def put(self, item, block=True, timeout=None):
        self.items.append(P.copy_across(item, ()))

    put_nowait = put


def external(meta):
    """The photon came from outside the node it hit."""
    return meta["container"] != meta["hit"]


def wanted_end(name, meta):
    if name in ("GENERATE", "NONRADIATIVE", "REACT", "KILL", "EXIT"):
        return True
    if name == "TRANSMIT":
        return True            # entries and escapes
    return name == "REFLECT" and external(dict(meta))


def run(sc, n, workers, mode, sched, seed):
    """mode: list | queue | end.  Returns (return value, queue items)."""
    q = None if mode == "list" else FakeQueue()
    fake = P.FakePool(sched, byref=(q,) if q else ())
    saved = multiprocessing.Pool
    np.random.seed(seed)
    multiprocessing.Pool = fake
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if q is None:
                r = sc.simulate(n, workers=workers)
            else:
                r = sc.simulate(n, workers=workers, queue=q, end_rays=(mode == "end"))
    finally:
        multiprocessing.Pool = saved
    return r, (q.items if q else None)


def group(items):
    g = collections.OrderedDict()
    for it in items:
        g.setdefault((it[0], it[1]), []).append(canon(*it[2:5]))
    return g


def complete(h):
    names = [e[0][0] for e in h]
    if names[0] != "GENERATE" or "GENERATE" in names[1:]:
        return "does not start with its only GENERATE: %s" % names
    term = [x for x in names if x in ("EXIT", "NONRADIATIVE", "REACT", "KILL")]
    if len(names) > 1 and (len(term) != 1 or names[-1] != term[0]):
        return "does not end with its only terminal event: %s" % names
    return None


def job(args):
    kind, n, workers, seed = args
    chk = base.Check("C08")
    sc = scene(kind)
    s0 = P.Sched()
    ref, _ = run(sc, n, workers, "list", s0, seed)
    label = f"{kind}/n{n}/w{workers}"
    rep = {"scene": kind, "photons": n, "workers": workers, "seed": seed}
    if not isinstance(ref, list) or len(ref) != n:
        chk.violation(f"{label}:count", f"{len(ref) if ref is not None else None} photons traced, {n} requested", rep)
        return chk.cov, chk.viol
    refk = [tuple(canon(r, e)[0] for r, e in ((x[0], x[1]) for x in h)) for h in ref]
    for h in refk:
        c = complete([(e, None) for e in h])
        if c:
            chk.violation(f"{label}:history", c, rep)
    # independently seeded tasks: no two photons of the run are alike
    if len(set(refk)) != n:
        chk.violation(f"{label}:streams", "two photons of the run have identical histories", rep)
    tasks = s0.tasks
    cnt = collections.Counter(refk)
    cases = []
    if tasks:
        for a in P.assignments(tasks, workers):
            for o in P.orders(tasks, a):
                cases.append((a, o))
    else:
        cases = [((), ())]
    full_ref = None
    for a, o in cases:
        for mode in ("list", "queue", "end"):
            rep2 = dict(rep, task_to_process=a, order=o, mode=mode)
            s = P.Sched(a, o)
            r, items = run(sc, n, workers, mode, s, seed)
            chk.add("schedules")
            if mode == "list":
                k = [tuple(canon(x[0], x[1])[0] for x in h) for h in r]
                chk.add("states", sum(map(len, k)))
                if collections.Counter(k) != cnt:
                    chk.violation(f"{label}:list", "the photons traced depend on the schedule", rep2)
                continue
            chk.add("transitions", len(items))
            g = group(items)
            if len(g) != n:
                chk.violation(f"{label}:{mode}:identity", f"{len(g)} photon identities delivered for {n} photons", rep2)
                continue
            if mode == "queue":
                for h in g.values():
                    c = complete(h)
                    if c:
                        chk.violation(f"{label}:queue:history", c, rep2)
                if collections.Counter(tuple(e[0] for e in h) for h in g.values()) != cnt:
                    chk.violation(f"{label}:queue:events", "queue delivery differs from the returned histories", rep2)
                full_ref = g
            else:
                want = collections.Counter(tuple(e for e in h if wanted_end(e[0][0], e[1])) for h in full_ref.values())
                got = collections.Counter(tuple(h) for h in g.values())
                if want != got:
                    miss = [[e[0][0] for e in h] for h in (want - got)]
                    chk.violation(f"{label}:end", f"end-ray delivery differs from the filtered full delivery: expected {miss[:1]}", rep2)
            chk.add("traces_validated_against_impl", n)
    chk.sample({"photons": n, "workers": workers, "tasks": tasks, "schedules": len(cases),
                "first_photon": [e[0] for e in refk[0]] if refk else []}, cap=1)
    return chk.cov, chk.viol


def filter_job(args):
    """All random-choice sequences of single photons: the end-ray delivery is
    the documented subset of the full delivery."""
    key, ri, B = args
    from mc import choice, engine as E
    choice.install()
    chk = base.Check("C08")
    D = choice.DRIVER
    try:
        sc, _, spec = E.engine_scene(key, ri)

        def once(devs, end):
            D.start(devs)
            q = FakeQueue()
            sc.simulate(1, workers=1, queue=q, end_rays=end)
            return q.items, D.n

        def run_(devs):
            full, n = once(devs, False)
            end, n2 = once(devs, True)
            return (full, end), n
        A = [0.0137, 0.2371, 0.7629, 0.9863]
        for devs, n, (full, end) in choice.explore(run_, A, B):
            f = [canon(*x[2:5]) for x in full]
            e = [canon(*x[2:5]) for x in end]
            chk.add("states", len(f))
            chk.add("traces_validated_against_impl", 1)
            if e != [x for x in f if wanted_end(x[0][0], x[1])]:
                chk.violation(f"filter/{key}/{ri}", "end-ray delivery %s of history %s" % (
                    [x[0][0] for x in e], [(x[0][0], x[1]) for x in f]), {"scene": key, "ray": ri, "draws": devs})
            c = complete(f)
            if c:
                chk.violation(f"filter/{key}/{ri}:history", c, {"scene": key, "ray": ri, "draws": devs})
    finally:
        choice.uninstall()
    return chk.cov, chk.viol


def reproducible(chk):
    """One process and a seed: the same run every time, whatever ran before."""
    sc = scene("two")
    for n in (0, 1, 2, 5, 9):
        for seed in (0, 1, 42, 2 ** 31 - 1):
            runs = []
            for before in (1, 2):
                np.random.seed(before)
                np.random.uniform(size=before)
                with contextlib.redirect_stdout(io.StringIO()):
                    runs.append([tuple(canon(x[0], x[1])[0] for x in h) for h in sc.simulate(n, workers=1, seed=seed)])
                    q = FakeQueue()
                    sc.simulate(n, workers=1, seed=seed, queue=q)
                g = [tuple(e[0] for e in h) for h in group(q.items).values()]
                runs.append(g)
                chk.add("configurations")
            if any(r != runs[0] for r in runs) or len(runs[0]) != n:
                chk.violation(f"seed/n{n}/s{seed}", "a seeded single-process run is not reproducible", {"n": n, "seed": seed})
    # a seed with several processes would give every task the same photons
    for n, w in ((4, 2), (9, 3)):
        q = FakeQueue()
        s = P.Sched()
        saved = multiprocessing.Pool
        multiprocessing.Pool = P.FakePool(s, byref=(q,))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                sc.simulate(n, workers=w, seed=7, queue=q)
            g = group(q.items)
            ks = [tuple(e[0] for e in h) for h in g.values()]
            if len(ks) != n or len(set(ks)) != n:
                chk.violation(f"seed/w{w}", "a seeded multi-process run repeats photons", {"n": n, "workers": w})
        except ValueError:
            if q.items:
                chk.violation(f"seed/w{w}:late", "refused only after photons were delivered", {"n": n, "workers": w})
        finally:
            multiprocessing.Pool = saved


def dispatch(j):
    return filter_job(j[1]) if j[0] == "filter" else job(j)


def main(chk):
    chk.assumptions += ["worker processes are emulated in one process: own random state, own pid, arguments and results pickled",
                        "deliveries of different tasks commute (records are grouped by identity), so tasks run one after the other in every order"]
    kinds = ("two", "one")
    jobs = []
    for kind in kinds:
        for w in (1, 2, 3, 4) + ((5,) if base.THOROUGH else ()):
            top = (13 if w < 5 else 11) if base.THOROUGH else (9 if w < 4 else 9)
            for n in range(0, top):
                jobs.append((kind, n, w, 11))
    for n in (15, 16, 17, 23):
        for w in (2, 3):
            jobs.append(("two", n, w, 3))
    jobs.sort(key=lambda j: -(j[1] * 10 ** j[2]))
    fam = scenes.family()
    fjobs = [("filter", (k, ri, 2 if base.THOROUGH else 1)) for k in fam for ri in range(len(fam[k]["rays"])) if k != "guide"]
    jobs = fjobs + jobs
    for j, r in zip(jobs, base.pmap(dispatch, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j}:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
            continue
        cov, viol = r
        for k, v in cov.items():
            if k == "samples":
                for s in v: chk.sample(s)
            else:
                chk.add(k, v)
        for key, what, rep in viol:
            chk.violation(key, what, rep)
    reproducible(chk)
