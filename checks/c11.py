"""Query commands against a recount of the stored rows."""
from mc import base, choice
choice.install()
import io  # noqa
import csv  # noqa
import itertools  # noqa
import json  # noqa
import os  # noqa
import shutil  # noqa
import sqlite3  # noqa
import tempfile  # noqa

QUERIES = {  # command -> (event, column which must equal the node beside `hit`, or None for a volume query)
    "reflected": ("REFLECT", "adjacent"), "entering": ("TRANSMIT", "adjacent"), "escaping": ("TRANSMIT", "container"),
    "lost": ("NONRADIATIVE", None), "reacted": ("REACT", None), "killed": ("KILL", None)}
VALUE = {"spectrum": "wavelength", "time": "duration"}
UNIT = {"spectrum": "nanometers", "time": "seconds"}
OTHERS = ("GENERATE", "ABSORB", "EMIT", "SCATTER", "EXIT")

_T = []


def tools():
    if not _T:
        import click.testing
        import typer.main
        import pvtrace.cli.main as m
        _T.append((m, typer.main.get_command(m.app), click.testing.CliRunner()))
    return _T[0]


def tmp():
    return tempfile.mkdtemp(prefix="c11-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)


def write_db(path, rows):
    m = tools()[0]
    if os.path.exists(path):
        os.remove(path)
    m.prepare_database(path)
    con = sqlite3.connect(path)
    con.execute("PRAGMA synchronous=OFF")
    for i, r in enumerate(rows, 1):
        con.execute("INSERT INTO ray (rowid, throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration) "
                    "VALUES (?, ?, 0, 0, 0, 0, 0, 1, ?, ?, 1.0, ?)", (i, r["throw"], r["wavelength"], r["source"], r["duration"]))
        con.execute("INSERT INTO event (ray_id, kind, component, hit, container, adjacent, facet, ni, nj, nk) "
                    "VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?)",
                    (i, r["kind"], r.get("component"), r["hit"], r["container"], r["adjacent"], r["facet"], *r["normal"]))
    con.commit()
    con.close()


def row(throw, kind, hit=None, container=None, adjacent=None, facet=None, normal=(None, None, None), source="lamp",
        wavelength=555.0, duration=1.25e-10, component=None):
    return dict(throw=throw, kind=kind, hit=hit, container=container, adjacent=adjacent, facet=facet, normal=normal,
                source=source, wavelength=wavelength, duration=duration, component=component)


def matches(r, cmd, f):
    kind, col = QUERIES[cmd]
    if r["kind"] != kind:
        return False
    if col is None:
        if r["container"] != f["node"]:
            return False
    elif r["hit"] != f["node"] or r[col] != f["node"]:
        return False
    for a, v in zip(("nx", "ny", "nz"), r["normal"]):
        if f.get(a) is not None and (v is None or not abs(f[a] - v) <= f.get("atol", 1e-6)):
            return False
    if f.get("facet") and r["facet"] != f["facet"]:
        return False
    if f.get("source") and r["source"] != f["source"]:
        return False
    return True


def expected(rows, group, cmd, f):
    sel = [r for r in rows if matches(r, cmd, f)]
    if group == "count":
        return len({r["throw"] for r in sel})
    return sorted({(r["throw"], r[VALUE[group]]) for r in sel})


def options(group, cmd, f):
    out = []
    for k in ("nx", "ny", "nz", "facet", "source", "atol"):
        if f.get(k) is not None:
            out += [f"--{k}", str(f[k])] if isinstance(f[k], str) else [f"--{k}={f[k]!r}"]
    return out


def allowed(group, cmd, f):
    """Does the command have these options?"""
    if QUERIES[cmd][1] is None:
        if any(f.get(k) is not None for k in ("nx", "ny", "nz", "atol")):
            return False
        if f.get("facet") is not None and (group, cmd) != ("count", "lost"):
            return False
    return True


def query(db, rows, group, cmd, f, output="csv"):
    """A complaint or None."""
    m, app, runner = tools()
    want = expected(rows, group, cmd, f)
    args = [group, cmd, f["node"], db] + options(group, cmd, f)
    if group != "count":
        args += ["--output", output] if output != "plot" else []
    res = runner.invoke(app, args)
    text = " ".join(args[:3] + args[4:])
    if res.exception is not None or res.exit_code != 0:
        if output == "json" and len({t for t, _ in want}) < len(want):
            return ("json:photon twice", f"`{text}` fails: {res.exception!r}")
        return (f"{group} {cmd}:{output}:fails", f"`{text}` fails: {res.exception!r}")
    if group == "count":
        got = res.output.strip()
        if got != str(want):
            return (f"{group} {cmd}", f"`{text}` prints {got}, {want} photons match")
        return None
    if not want:
        if res.output.strip():
            return (f"{group} {cmd}", f"`{text}` prints {res.output.strip()[:80]!r}, no photon matches")
        return None
    if output == "csv":
        rd = list(csv.reader(io.StringIO(res.output.strip())))
        if rd[0][1:] != [UNIT[group]]:
            return (f"{group} {cmd}:header", f"`{text}` prints columns {rd[0]}")
        got = sorted((int(r[0]), float(r[1])) for r in rd[1:])
        if got != want:
            return (f"{group} {cmd}", f"`{text}` reports {got[:6]}, stored are {want[:6]}")
    elif output == "json":
        d = json.loads(res.output)
        got = sorted((int(k), float(v)) for k, v in d[UNIT[group]].items())
        if len(got) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-15 + 1e-9 * (group == "spectrum") for a, b in zip(got, want)):
            return (f"{group} {cmd}:json", f"`{text}` reports {got[:6]}, stored are {want[:6]}")
    else:
        n = sum(int(x.split("[")[-1].split("]")[0]) for x in res.output.splitlines() if "[" in x and "]" in x)
        if "]" in res.output and n != len(want):
            return (f"{group} {cmd}:plot", f"`{text}` draws {n} samples, {len(want)} match")
    return None


# ---- 1. wide databases: every row of the alphabet, every filter -------------------

NORMALS = [(None, None, None), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1e-8, 0.0, 1.0 - 1e-8),
           (0.04, 0.0, 0.97)]
FILTERN = [dict(), dict(nz=1.0), dict(nz=-1.0), dict(nz=0.0), dict(nx=0.0), dict(nx=1.0), dict(ny=1.0), dict(ny=0.0, nz=1.0),
           dict(nx=0.0, ny=0.0), dict(nx=0.0, ny=0.0, nz=1.0), dict(nx=1.0, ny=0.0, nz=0.0), dict(nx=-1.0), dict(nx=0.5)]


def wide_rows(names, sources):
    a, b, w = names
    places = [(a, w, a), (a, a, w), (b, a, b), (b, b, a), (b, w, b), (w, w, None), (None, a, None), (None, b, None),
              (a, a, a), (b, a, a), (a, b, a)]
    rows, t = [], 0
    for kind in [k for k, _ in QUERIES.values()][:1] + ["TRANSMIT", "NONRADIATIVE", "REACT", "KILL"] + list(OTHERS):
        for hit, con, adj in places:
            for facet in (None, "top", "Top"):
                for n in NORMALS:
                    if kind in OTHERS and (facet or n != NORMALS[1]):
                        continue
                    if facet == "Top" and n not in NORMALS[:2]:
                        continue
                    for s in sources:
                        rows.append(row(t, kind, hit, con, adj, facet, n, s, 400.0 + 0.1 * t, 1e-12 * (t + 1), "dye" if t % 2 else None))
                        t += 1
    return rows


def filters(names, sources):
    for node in names[:2] + ("nowhere",):
        for nf in FILTERN:
            for facet in (None, "top", "other"):
                for source in (None,) + sources + ("nothing",):
                    for atol in (None, 0.05, 0.0) if nf else (None,):
                        f = dict(node=node, facet=facet, source=source, **nf)
                        if atol is not None:
                            f["atol"] = atol
                        yield f


def wide_jobs():
    out = []
    names = [(("slab", "core", "world"), ("lamp", "dye")), (("a'b; --", "A%_", "w"), ("la'mp", "l\"x"))]
    for i, (n, s) in enumerate(names):
        fs = list(filters(n, s))
        if i or not base.THOROUGH:
            fs = [f for f in fs if (not f.get("facet") or f["node"] == n[0] or not f["source"])]
        if i:
            fs = [f for f in fs if not any(k in f for k in ("nx", "ny"))]
        for c in range(0, len(fs), 40):
            out.append(("wide", n, s, fs[c:c + 40]))
    return out


def wide(job):
    _, names, sources, fs = job
    d = tmp()
    bad, n = [], 0
    try:
        rows = wide_rows(names, sources)
        db = os.path.join(d, "w.sqlite3")
        write_db(db, rows)
        for f in fs:
            for cmd in QUERIES:
                for group in ("count", "spectrum", "time"):
                    if not allowed(group, cmd, f):
                        continue
                    if group == "time" and f.get("atol") == 0.0 and not base.THOROUGH:
                        continue
                    n += 1
                    c = query(db, rows, group, cmd, f)
                    if c:
                        bad.append((c[0], c[1], {"database": "wide", "filter": f}))
        return n, 1, bad[:6]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- 2. all small databases ----------------------------------------------------------

def alphabet():
    """Rows of two photons; for each query a base row and rows differing from
    it in one column."""
    A, W = "slab", "world"
    top, side = (0.0, 0.0, 1.0), (1.0, 0.0, 0.0)
    out = []
    for t in (0, 1):
        for kind, hit, con, adj in (("REFLECT", A, W, A), ("TRANSMIT", A, W, A), ("TRANSMIT", A, A, W),
                                    ("NONRADIATIVE", None, A, None), ("REACT", None, A, None), ("KILL", None, A, None)):
            b = dict(wavelength=500.0, duration=2.5e-11, source="lamp", facet=None, normal=top if hit else (None,) * 3)
            vary = [dict(), dict(source="dye"), dict(wavelength=600.0), dict(duration=3.3e-9)]
            if hit:
                vary += [dict(normal=side), dict(facet="top")]
            else:
                vary += [dict(component="dye")]
            if kind in ("KILL", "REACT"):
                vary = vary[:3]
            out += [row(t, kind, hit, con, adj, **dict(b, **v)) for v in vary]
        out.append(row(t, "REFLECT", A, A, W, None, top))
    return out


SMALLF = [dict(node="slab"), dict(node="slab", source="lamp"), dict(node="slab", nz=1.0), dict(node="slab", facet="top"),
          dict(node="world")]


def small(chunk):
    d = tmp()
    bad, n = [], 0
    al = alphabet()
    try:
        for k, combo in enumerate(chunk):
            rows = [al[i] for i in combo]
            db = os.path.join(d, f"s{k}.sqlite3")
            write_db(db, rows)
            kinds = {r["kind"] for r in rows}
            for cmd in QUERIES:
                if QUERIES[cmd][0] not in kinds and k % 24:
                    continue
                for group in ("count", "spectrum", "time"):
                    for f in SMALLF[:2] if len(combo) > 2 and not base.THOROUGH else SMALLF:
                        if not allowed(group, cmd, f):
                            continue
                        for o in ("csv",) if group == "count" or f is not SMALLF[0] or len(combo) > 2 else ("csv", "json", "plot"):
                            n += 1
                            c = query(db, rows, group, cmd, f, o)
                            if c:
                                bad.append((c[0], c[1], {"rows": rows, "filter": f}))
            os.remove(db)
        return n, len(chunk), bad[:6]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def small_jobs():
    al = alphabet()
    combos = []
    for n in range(0, 4):
        for c in itertools.combinations_with_replacement(range(len(al)), n):
            # the two photons are interchangeable
            if n >= 2 and c[0] >= len(al) // 2:
                continue
            if n == 3 and not base.THOROUGH:
                # one kind of event only
                if len({(al[i]["kind"], al[i]["container"]) for i in c}) > 1:
                    continue
            combos.append(c)
    return [("small", combos[i:i + 48]) for i in range(0, len(combos), 48)]


# ---- 3. a recorded simulation --------------------------------------------------------

def recorded(job):
    """Queries after a real recording, against the delivered events."""
    from mc import pipeline as PL, sched as S
    p = PL.prepare()
    d = tmp()
    bad, n = [], [0]
    try:
        def check(db, delivered, res):
            if res is None or res.exception is not None:
                return f"the recording failed: {res and res.exception!r}"
            rows = []
            for t, (k, h) in enumerate(sorted(delivered.items())):
                for ray, event, meta in h:
                    meta = meta or {}
                    nn = meta.get("normal")
                    rows.append(row(t, event.name, meta.get("hit"), meta.get("container"), meta.get("adjacent"),
                                    meta.get("facet"), tuple(float(x) for x in nn) if nn is not None else (None,) * 3,
                                    ray.source, float(ray.wavelength), float(ray.duration), meta.get("component")))
            # throw numbers depend on the order of arrival: compare values only
            for cmd in QUERIES:
                for f in (dict(node="slab"), dict(node="slab", nz=1.0), dict(node="slab", nx=1.0), dict(node="slab", source="lamp"),
                          dict(node="world"), dict(node="slab", source="beam")):
                    for g in ("count", "spectrum", "time"):
                        if not allowed(g, cmd, f):
                            continue
                        n[0] += 1
                        want = expected(rows, g, cmd, f)
                        m, app, runner = tools()
                        r = runner.invoke(app, [g, cmd, f["node"], db] + options(g, cmd, f) + (["--output", "csv"] if g != "count" else []))
                        if r.exception is not None:
                            bad.append((f"recorded:{g} {cmd}", f"{g} {cmd} {f}: {r.exception!r}", None))
                        elif g == "count" and r.output.strip() != str(want):
                            bad.append((f"recorded:{g} {cmd}", f"{g} {cmd} {f} prints {r.output.strip()}, {want} photons did", None))
                        elif g != "count":
                            got = sorted(float(x[1]) for x in list(csv.reader(io.StringIO(r.output.strip())))[1:])
                            if got != sorted(v for _, v in want):
                                bad.append((f"recorded:{g} {cmd}", f"{g} {cmd} {f} reports {got[:5]}, {sorted(v for _, v in want)[:5]} happened", None))
            return None
        setup = PL.setup_factory(p, d, 60, ["--workers", job[1]], None, None, None, 0, check_db=check)
        ex = S.Explorer()
        try:
            ex.once(setup, None)
        finally:
            p.restore()
        return n[0], 1, bad[:6] + [("recorded", b[0], None) for b in ex.bad]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(job):
    return {"wide": wide, "small": lambda j: small(j[1]), "recorded": recorded}[job[0]](job)


def main(chk):
    chk.assumptions += ["a query looks at rows one by one apart from duplicate removal: databases of up to 3 rows show any interplay"]
    tools()
    jobs = wide_jobs() + small_jobs() + [("recorded", "1"), ("recorded", "2")]
    res = base.pmap(run, jobs)
    kinds = {}
    for j, r in zip(jobs, res):
        if base.is_exc(r):
            chk.violation(f"{j[0]}:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
            continue
        n, dbs, bad = r
        kinds.setdefault(j[0], [0, 0])
        kinds[j[0]][0] += n
        kinds[j[0]][1] += dbs
        chk.add("transitions", n)
        chk.add("traces_validated_against_impl", n)
        chk.add("states", dbs)
        for k, w, rep in bad:
            chk.violation(k, w, rep)
    for k, (n, dbs) in kinds.items():
        chk.sample({"family": k, "databases": dbs, "commands_run": n})
