"""Crash points: the process is ended before every file operation of a
recording (and in the middle of every write), and the database reopened."""
from mc import base, choice
import os
import sys


def preload():
    """Run this process under the crash shim (re-executes once)."""
    import subprocess
    if os.environ.get("PVTMC_SHIM"):
        return
    d = base.scratch()
    so = os.path.join(d, "crash_shim.so")
    src = os.path.join(base.VERIF, "mc", "crash_shim.c")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl"], check=True)
    env = dict(os.environ, PVTMC_SHIM=so, LD_PRELOAD=so)
    sys.exit(subprocess.run([sys.executable] + sys.argv, env=env).returncode)


preload()
os.environ.pop("LD_PRELOAD", None)
choice.install()
import ctypes  # noqa
import mmap  # noqa
import shutil  # noqa
import sqlite3  # noqa
import tempfile  # noqa
from mc import sched as S, pipeline as PL  # noqa
from checks.c09 import check_db, end_ray  # noqa

SHIM = ctypes.CDLL(os.environ["PVTMC_SHIM"])
SHIM.crash_start.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_void_p]
SHIM.crash_start.restype = None
SHIM.crash_stop.restype = ctypes.c_long

_P = []
KINDS = {1: "create", 2: "write", 3: "pwrite", 4: "sync", 5: "truncate", 6: "unlink", 7: "rename"}


def P():
    if not _P:
        _P.append(PL.prepare())
    return _P[0]


def rr(i, en, s):
    return en[i % len(en)]


def last(i, en, s):
    return en[-1] if i % 3 else en[0]


CHOOSE = {"sticky": None, "rr": rr, "last": last}


def tmp():
    return tempfile.mkdtemp(prefix="c10-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)


def forked(d, cfg, die=-1, torn=0, want_stream=False):
    """Run one recording in a child which dies at file operation `die`.
    Returns (exit status, number of operations, ops, message)."""
    import json
    label, photons, args, cap, assign, intr, choose, old = cfg
    shared = mmap.mmap(-1, 512 * 1024)
    buf = (ctypes.c_long * 65536).from_buffer(shared)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            p = P()
            ends = "--end-rays" in args
            stream = []
            box = []

            def check(db, delivered, res):
                c = check_db(photons, ends, intr)(db, delivered, res)
                recs = {}
                for (w, i), h in sorted(delivered.items(), key=lambda kv: kv[0][1]):
                    recs.setdefault(w, []).extend(PL.record(*x) for x in h if not ends or end_ray(x[1], x[2]))
                st = None
                if sorted(map(str, stream)) == sorted(str(w) for w, r in recs.items() for _ in r):
                    pos = dict.fromkeys(recs, 0)
                    st = []
                    for w in stream:
                        st.append(recs[w][pos[w]])
                        pos[w] += 1
                box.append(st)
                return c
            setup = PL.setup_factory(p, d, photons, args, cap, assign, intr, 0, check_db=check, name="scene", stream=stream)
            ex = S.Explorer()

            def go(s):
                j = setup(s)
                SHIM.crash_start(d.encode(), die, torn, ctypes.addressof(buf))
                return lambda s: (SHIM.crash_stop(), j(s))[1]
            ex.once(go, CHOOSE[choose])
            SHIM.crash_stop()
            msg = [ex.bad[0][0] if ex.bad else None, box[0] if box and want_stream else None]
            os.write(wfd, json.dumps(msg, default=float).encode())
            os._exit(0)
        except BaseException as e:  # noqa
            import traceback
            try:
                os.write(wfd, json.dumps([f"{type(e).__name__}: {e}", traceback.format_exc()]).encode())
            finally:
                os._exit(3)
    os.close(wfd)
    data = b""
    while True:
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    n = buf[0]
    ops = [(buf[16 + 2 * i], buf[17 + 2 * i]) for i in range(min(n, 16000))]
    del buf
    msg = json.loads(data) if data else [None, None]
    return os.waitstatus_to_exitcode(st), n, ops, msg


def start(d, old):
    with open(os.path.join(d, "scene.yml"), "w") as f:
        f.write(PL.SCENE)
    if old is not None:
        shutil.copy(old, os.path.join(d, "scene.sqlite3"))


def reopen(d):
    """('none'|'empty'|'rows', rows) or a complaint."""
    db = os.path.join(d, "scene.sqlite3")
    if not os.path.exists(db):
        return "none", None
    con = sqlite3.connect(db)
    try:
        ok = con.execute("PRAGMA integrity_check").fetchall()
        if ok != [("ok",)]:
            return f"the database is damaged: {ok[:2]}", None
        tables = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        if not {"ray", "event"} <= tables:
            for t in tables:
                if con.execute(f"SELECT COUNT(*) FROM {t}").fetchone()[0]:
                    return "records without tables", None
            return "empty", None
    except sqlite3.DatabaseError as e:
        return f"the database does not open: {e}", None
    finally:
        con.close()
    rows, orphans = PL.read_db(db)
    if orphans:
        return f"incomplete records: {orphans[:3]}", None
    return "rows", rows


def configs():
    out = [("inline/1", 1, ["--workers", "1"], None, None, None, "sticky", False),
           ("inline/2/rr", 2, ["--workers", "1"], 1, None, None, "rr", False),
           ("pool/2x2/rr", 2, ["--workers", "2"], None, None, None, "rr", False),
           ("pool/3x2/end/overwrite", 3, ["--workers", "2", "--end-rays"], 2, None, None, "last", True),
           ("pool/2x2/interrupt", 2, ["--workers", "2", "--end-rays"], None, None, KeyboardInterrupt, "sticky", False)]
    if base.THOROUGH:
        out += [("pool/4x3/last", 4, ["--workers", "3"], 2, None, None, "last", False),
                ("inline/6/overwrite", 6, ["--workers", "1"], 3, None, None, "rr", True),
                ("pool/5x2/same process", 5, ["--workers", "2"], 1, (0, 0, 1, 0, 0), None, "rr", False)]
    return out


def reference(cfg, old):
    """The undisturbed recording: (complaint, ops, rows, stream)."""
    d = tmp()
    try:
        start(d, old)
        rc, n, ops, msg = forked(d, cfg, want_stream=True)
        if rc != 0 or msg[0]:
            return f"undisturbed recording: {msg[0]} (exit {rc})", None, None, None
        kind, rows = reopen(d)
        if kind != "rows":
            return f"undisturbed recording leaves: {kind}", None, None, None
        st = msg[1]
        if st is not None:
            st = [tuple(x) for x in st]
            if [tuple(r[1]) for r in rows] != st:
                return "records are not stored in the order they were recorded", None, None, None
        return None, ops, rows, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def point(a):
    """One crash point; returns (complaint, state, number of records)."""
    cfg, old, n, torn, rows, oldrows, rerun = a
    d = tmp()
    try:
        start(d, old)
        rc, m, ops, msg = forked(d, cfg, n, torn)
        if rc != 77:
            return f"crash point {n} not reached (exit {rc}, {m} operations, {msg[0]})", None, None
        kind, got = reopen(d)
        if kind not in ("none", "empty", "rows"):
            return kind, None, None
        k = None
        if kind == "rows":
            if oldrows is not None and got == oldrows and n < 3:
                kind = "old"
            elif got != rows[:len(got)]:
                i = next((i for i, (x, y) in enumerate(zip(got, rows)) if x != y), len(rows))
                return f"contents are no prefix of the recorded stream (record {i} of {len(got)})", None, None
            else:
                k = len(got)
        if rerun:
            # recording again over what the crash left
            rc, m, ops, msg = forked(d, cfg)
            if rc != 0 or msg[0]:
                return f"recording again after the crash: {msg[0]} (exit {rc})", None, None
        return None, kind, k
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(chk):
    chk.assumptions += ["what the process wrote before dying is what a later process reads (death of the process, not of the machine)",
                        "the schedule of the recording threads is one of three fixed ones per history (all schedules: C09)"]
    P()
    od = tmp()
    try:
        start(od, None)
        oc = ("old", 2, ["--workers", "1", "--seed", "5"], None, None, None, "sticky", False)
        rc, n, ops, msg = forked(od, oc)
        old = os.path.join(od, "scene.sqlite3")
        oldrows = reopen(od)[1]
        refs = base.pmap(ref_job, [(c, old if c[7] else None) for c in configs()])
        jobs = []
        for c, r in zip(configs(), refs):
            if base.is_exc(r):
                chk.violation(f"{c[0]}:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
                continue
            bad, ops, rows, st = r
            if bad:
                chk.violation(f"{c[0]}:reference", bad, {"config": c[:5]})
                continue
            chk.add("file_operations", len(ops))
            for n, (kind, size) in enumerate(ops):
                ts = [0]
                if size > 1:
                    ts += [2] if size < 512 and not base.THOROUGH else ([2, 3] if not base.THOROUGH else [1, 2, 3, 4])
                for t in ts:
                    rerun = t == 0 and (base.THOROUGH or c[7] or c[0] == "inline/1" or n % 5 == 0)
                    jobs.append((c, old if c[7] else None, n, t, rows, oldrows if c[7] else None, rerun))
        res = base.pmap(point, jobs, chunksize=8)
        seen = {}
        for j, r in zip(jobs, res):
            c, n, t = j[0], j[2], j[3]
            where = {"config": c[0], "args": c[2], "file_operation": n, "torn": t}
            if base.is_exc(r):
                chk.violation(f"{c[0]}:exception", r[1].strip().splitlines()[-1], dict(where, trace=r[1]))
                continue
            chk.add("transitions")
            chk.add("traces_validated_against_impl")
            bad, kind, k = r
            if bad:
                chk.violation(f"{c[0]}:{bad[:40]}", f"{c[0]}, process ended at file operation {n} (torn {t}): {bad}", where)
                continue
            seen.setdefault(c[0], []).append((n, t, kind, k))
        order = {"none": 0, "empty": 1}
        for c, pts in seen.items():
            cfg = next(x for x in configs() if x[0] == c)
            states = {(kind, k) for _, _, kind, k in pts}
            chk.add("states", len(states))
            best, at = -1, None
            for n, t, kind, k in sorted(pts, key=lambda x: x[:2]):
                if k is None:
                    if best > 0:
                        chk.violation(f"{c}:lost", f"{c}: {best} committed records at operation {at}, none at {n}", {"config": c, "file_operation": n})
                    continue
                if k < best:
                    chk.violation(f"{c}:lost", f"{c}: {best} committed records at operation {at}, {k} at {n}", {"config": c, "file_operation": n})
                best, at = max(best, k), n
            chk.sample({"history": c, "crash_points": len(pts), "contents_after_crash": sorted(map(str, states))[:20]})
    finally:
        shutil.rmtree(od, ignore_errors=True)


def ref_job(a):
    return reference(*a)
