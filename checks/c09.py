from mc import base, choice
choice.install()
import os
import shutil
import tempfile
import time
from mc import sched as S, pipeline as PL  # noqa

_P = []


def P():
    if not _P:
        _P.append(PL.prepare())
    return _P[0]


def end_ray(e, m):
    if e.name in ("EMIT", "SCATTER", "ABSORB"):
        return False
    if e.name == "REFLECT":
        return m["hit"] == m["adjacent"]
    return True


def check_view(delivered, ends, every):
    """The live view is given whole photons, none twice; all of them if every
    photon is to be shown."""
    made = PL.Renderer.made
    if len(made) != 1:
        return f"{len(made)} live views opened"
    shown = []
    for name, a in made[0].calls:
        if name == "add_history":
            shown.append(tuple(PL.record(r, e, None) for r, e in (x[:2] for x in a[0])))
    want = [tuple(PL.record(x[0], x[1], None) for x in h if not ends or end_ray(x[1], x[2])) for h in delivered.values()]
    want = [w for w in want if len(w) > 1]
    left = list(want)
    for h in shown:
        if h not in left:
            return "the live view was given a history twice" if h in want else "the live view was given something which is not the history of a photon"
        left.remove(h)
    if every == 1 and left:
        return f"the live view was not given {len(left)} of {len(want)} histories although it shows every photon"
    return None


def check_db(photons, ends, interrupt, every=None):
    def check(db, delivered, res):
        if res is None:
            return "the command did not return"
        if interrupt is None and (res.exit_code != 0 or res.exception):
            return f"the command failed: {res.exception!r} exit {res.exit_code}: {res.output[-200:]}"
        if interrupt is not None and res.exit_code == 0:
            return "an interrupted simulation reported success"
        if len(delivered) != photons:
            return f"{len(delivered)} photons traced, {photons} requested"
        rows, orphans = PL.read_db(db)
        if orphans:
            return f"rows without partner: {orphans[:3]}"
        want = sorted((tuple(PL.record(*x) for x in h if not ends or end_ray(x[1], x[2])) for h in delivered.values()), key=repr)
        got = sorted((tuple(g) for g in PL.group(rows).values()), key=repr)
        if got != want:
            nw, ng = sum(map(len, want)), len(rows)
            if nw != ng:
                return f"{ng} events stored, {nw} delivered"
            if len(got) != len(want):
                return f"{len(got)} throws stored for {len(want)} photons"
            for g, w in zip(got, want):
                for x, y in zip(g, w):
                    if x != y:
                        return f"stored {x} for {y}"
            return "stored photons differ from the delivered ones"
        if every is not None:
            return check_view(delivered, ends, every)
        return None

    def failed(res):
        if res is None:
            return "the command did not return after a failed write"
        if res.exit_code == 0:
            return "a simulation whose events could not be stored reported success"
        return None
    check.failed = failed
    return check


def configs():
    """(label, photons, args, capacity, assign, interrupt, silence, refused row)"""
    big = base.THOROUGH
    out = [
        ("inline/1", 1, ["--workers", "1"], 2, None, None, 0),
        ("inline/3", 3, ["--workers", "1"], 2, None, None, 0),
        ("inline/2/cap1", 2, ["--workers", "1"], 1, None, None, 0),
        ("inline/2/unbounded", 2, ["--workers", "1"], None, None, None, 0),
        ("inline/2/seed", 2, ["--workers", "1", "--seed", "3"], 3, None, None, 0),
        ("inline/3/end", 3, ["--workers", "1", "--end-rays"], 2, None, None, 0),
        ("inline/3/slow", 3, ["--workers", "1"], 1, None, None, 400),
        ("inline/3/view1", 3, ["--workers", "1", "--zmq", "x", "--render-every", "1"], 2, None, None, 0),
        ("few/1of3", 1, ["--workers", "3"], 2, None, None, 0),
        ("pool/2x2/cap1", 2, ["--workers", "2"], 1, None, None, 0),
        ("pool/2x2/cap2", 2, ["--workers", "2"], 2, None, None, 0),
        ("pool/2x2/unbounded", 2, ["--workers", "2"], None, None, None, 0),
        ("pool/2x2/same process", 2, ["--workers", "2"], 2, (0, 0), None, 0),
        ("pool/4x2/same process", 4, ["--workers", "2"], 2, (0, 0), None, 0),
        ("pool/3x2/end", 3, ["--workers", "2", "--end-rays"], 2, None, None, 0),
        ("pool/3x2/interrupt", 3, ["--workers", "2", "--end-rays"], 4, None, KeyboardInterrupt, 0),
        ("pool/2x2/error", 2, ["--workers", "2"], 3, None, RuntimeError, 0),
        ("pool/2x2/slow", 2, ["--workers", "2"], 2, None, None, 400),
        ("inline/4/view2", 4, ["--workers", "1", "--zmq", "x", "--render-every", "2"], 1, None, None, 0),
        ("pool/4x2/view1/same process", 4, ["--workers", "2", "--zmq", "x", "--render-every", "1", "--end-rays"], 2, (0, 0), None, 0),
        ("pool/2x2/view2", 2, ["--workers", "2", "--zmq", "x", "--render-every", "2"], 2, None, None, 0),
        ("pool/3x2/view1", 3, ["--workers", "2", "--zmq", "x", "--render-every", "1", "--end-rays"], 1, None, None, 0),
        ("inline/9", 9, ["--workers", "1"], 1, None, None, 0),
        # many photons, a handful of fixed schedules
        ("bulk/1300x1", 1300, ["--workers", "1", "--end-rays"], None, None, None, 0),
        ("bulk/2200x2", 2200, ["--workers", "2", "--end-rays"], 7, None, None, 0),
    ]
    out = [c + (None,) for c in out]
    # the database refuses the k-th row of a table, and every later one
    for tab, ks in (("ray", (1, 2, 5)), ("event", (1, 4))):
        for k in ks:
            out.append((f"full/{tab}{k}/inline", 2, ["--workers", "1"], 1, None, None, 0, (tab, k)))
            out.append((f"full/{tab}{k}/pool", 2, ["--workers", "2", "--end-rays"], 1 + k % 2, None, None, 0, (tab, k)))
    if big:
        out += [c + (None,) for c in [("pool/3x3/end", 3, ["--workers", "3", "--end-rays"], 1, None, None, 0),
                ("pool/4x2/cap3", 4, ["--workers", "2"], 3, None, None, 0),
                ("pool/3x3/cap2", 3, ["--workers", "3"], 2, None, None, 0),
                ("pool/4x3/end", 4, ["--workers", "3", "--end-rays"], 2, None, None, 0),
                ("pool/4x4/end", 4, ["--workers", "4", "--end-rays"], 1, None, None, 0),
                ("pool/4x3/mixed", 4, ["--workers", "3"], 2, (0, 1, 0), KeyboardInterrupt, 0)]]
        for tab in ("ray", "event"):
            for k in range(1, 9):
                out += [(f"full/{tab}{k}/inline/3/cap2", 3, ["--workers", "1"], 2, None, None, 0, (tab, k)),
                        (f"full/{tab}{k}/pool/3x2", 3, ["--workers", "2"], 1, None, None, 0, (tab, k)),
                        (f"full/{tab}{k}/pool/2x2/interrupt", 2, ["--workers", "2"], 3, None, KeyboardInterrupt, 0, (tab, k))]
    return out


def job(cfg):
    label, photons, args, cap, assign, intr, silence, fault = cfg
    d = tempfile.mkdtemp(prefix="c09-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        p = P()
        ends = "--end-rays" in args
        every = int(args[args.index("--render-every") + 1]) if "--render-every" in args else None
        setup0 = PL.setup_factory(p, d, photons, args, cap, assign, intr, silence, check_db=check_db(photons, ends, intr, every),
                                  fault=fault)
        ex = S.Explorer(deadline=time.time() + (60 if not base.THOROUGH else 900))
        last = []

        def setup(s):
            j = setup0(s)
            return j
        orig = ex.run

        def run(setup, prefix):
            try:
                return orig(setup, prefix)
            finally:
                if hasattr(p, 'restore'):
                    p.restore()
        ex.run = run
        if label.startswith("bulk"):
            rr = lambda i, en, s: en[i % len(en)]
            for ch in (None, rr):
                try:
                    ex.once(setup, ch)
                finally:
                    p.restore()
        else:
            ex.explore(setup)
        return dict(label=label, execs=ex.execs, complete=ex.complete, states=len(ex.visited), transitions=len(ex.edges),
                    steps=ex.steps, truncated=ex.truncated, bad=ex.bad[:4])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(chk):
    chk.assumptions += ["sqlite, pickling and the queue server work as documented; a polling loop keeps no count of its polls (long silences are explored separately)",
                        "queue capacity is reduced to 1..4 so that full queues are reached"]
    cf = configs()
    order = sorted(range(len(cf)), key=lambda i: -cf[i][1] * (1 + ("pool" in cf[i][0])))
    res = base.pmap(job, [cf[i] for i in order])
    for i, r in zip(order, res):
        if base.is_exc(r):
            chk.violation(f"{cf[i][0]}:exception", r[1].strip().splitlines()[-1], {"config": cf[i], "trace": r[1]})
            continue
        chk.add("states", r["states"])
        chk.add("transitions", r["transitions"])
        chk.add("traces_validated_against_impl", r["complete"])
        chk.add("schedules_replayed", r["execs"])
        if r["truncated"]:
            chk.add("configs_truncated")
        chk.sample({k: v for k, v in r.items() if k != "bad"}, 30)
        for c, path in r["bad"]:
            chk.violation(f"{r['label']}:{c[:60]}", c, {"config": r["label"], "schedule": path})
