"""C04: every assignment of work to threads of the compiled engine, under a
controlled OpenMP runtime which records all shared accesses."""
from mc import base
import ctypes
import itertools
import os
import subprocess
import numpy as np
from checks import c05
from mc import transport as T, scenes, pvbuild, kernel, engine as E, recount  # noqa

RT = None


def ensure():
    global RT
    if RT is None:
        d = os.path.join(base.scratch(), "kernel-omp")
        wraps = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset")]
        so = kernel.build(cflags=("-fsanitize=thread",), ldflags=["-Wl,-Bsymbolic"] + wraps, outdir=d,
                          hook_c=[os.path.join(kernel.HERE, "verif_hooks.c"), os.path.join(kernel.HERE, "omp_rt.c")])
        kernel.load(so)
        RT = kernel.LIB
        RT.rt_setup.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long]
        RT.rt_stat.restype = ctypes.c_long
        RT.rt_base.restype = ctypes.c_void_p
        RT.path = so


def where(pc):
    """Name of the kernel function containing an address of this process."""
    off = pc - ctypes.cast(RT.rt_stat, ctypes.c_void_p).value
    out = subprocess.run(["nm", RT.path], capture_output=True, text=True).stdout
    syms = sorted((int(l.split()[0], 16), l.split()[2]) for l in out.splitlines() if len(l.split()) == 3)
    basea = dict((n, a) for a, n in syms)["rt_stat"]
    tgt = basea + off
    best = [n for a, n in syms if a <= tgt]
    return best[-1] if best else "?"


def controlled(sim, limit=8, order=None, assign=None, icv=3):
    o = (ctypes.c_int * 8)(*(order or range(8)))
    a = np.array(assign if assign is not None else [], np.int32)
    RT.rt_setup(limit, icv, o, a.ctypes.data if a.size else None, a.size)
    r = sim()
    st = [RT.rt_stat(k) for k in range(13)]
    RT.rt_setup(8, icv, None, None, 0)
    return r, st


def recorders(spec, nodes):
    recount.build(c05.recorder_specs(spec, 0), {n.name: n for n in nodes})


def hist(result):
    return [[(e["event"], e["hit"], e["container"], e["adjacent"], e["component"], e["source"],
              tuple(e["pos"]), tuple(e["dir"]), e["nm"], e["travelled"], e["duration"],
              None if e["normal"] is None else tuple(e["normal"]))
             for e in (pvbuild.as_dict(r, ev, m) for r, ev, m in h)] for h in result.histories()]


def tallies(result):
    out = {}
    for name, r in result.recorders.items():
        hs = []
        for i in range(len(r.spec.histograms)):
            hs.append(np.asarray(r.histogram(i)[-1]).ravel())
        mom = [r.mean(p) for p in ("wavelength", "angle", "duration", "pathlength")] + \
              [r.std(p) for p in ("wavelength", "angle", "duration", "pathlength")]
        out[name] = (r.rays, r.crossings, np.concatenate(hs) if hs else np.zeros(0), np.array(mom))
    return out


def differ(a, b):
    if set(a) != set(b):
        return "different recorders"
    for k in a:
        if a[k][:2] != b[k][:2] or not np.array_equal(a[k][2], b[k][2]):
            return f"recorder {k}: {a[k][:2]} instead of {b[k][:2]}"
        # floating-point sums may be grouped differently
        if not np.allclose(a[k][3][:4], b[k][3][:4], rtol=1e-9, atol=0, equal_nan=True):
            return f"recorder {k}: means {a[k][3].tolist()} instead of {b[k][3].tolist()}"
        scale = np.abs(b[k][3][:4])
        if not (np.isnan(b[k][3][4:]) | (np.abs(a[k][3][4:] - b[k][3][4:]) <= 1e-5 * scale + 1e-300)).all():
            return f"recorder {k}: deviations {a[k][3].tolist()} instead of {b[k][3].tolist()}"
    return None


def same(a, b):
    """Histories compare bit for bit (NaN equal to itself)."""
    return repr(a) == repr(b)


SCENES = ["lsc", "times", "sheets", "tandem"]


def simulate(key, n, seed, **kw):
    k = (key, 0)
    if k not in E._c:
        E._c[k] = E.engine_scene(key, 0, recorders)
    from pvtrace import engine
    args = dict(maxsteps=30, max_events=64, record_every=1, workers=1)
    args.update(kw)
    return engine.simulate(E._c[k][0], n, seed=seed, **args)


def conflict(chk, label, st, replay):
    if st[0]:
        chk.violation(f"{label}:conflict", f"threads {st[10]} and {st[11]} access one location without ordering in "
                      f"{where(st[9])} / {where(st[12])}: {st[0]} conflicting accesses", replay)


def sizes_of(chunk):
    sizes = sorted({1, 2, chunk - 1, chunk, chunk + 1, 2 * chunk, 3 * chunk + 1} - {0})
    return sizes + ([4 * chunk - 1, 4 * chunk + 5, 5 * chunk, 6 * chunk - 1] if base.THOROUGH else [])


def chunk_of(key, seed):
    _, st = controlled(lambda: simulate(key, 130, seed, workers=2))
    return max(1, st[8])


def schedules(chk, key, seed, n):
    chunk = chunk_of(key, seed)
    sizes = sizes_of(chunk)
    for n in (n,):
        ref, _ = controlled(lambda: simulate(key, n, seed))
        rh, rt = hist(ref), tallies(ref)
        if n <= 2 * chunk:
            # each photon alone
            for i in range(n):
                h1 = hist(simulate(key, 1, seed + i))
                chk.add("states", len(h1[0]))
                if not same(h1[0], rh[i]):
                    chk.violation(f"{key}/n{n}/photon{i}", "a photon's history depends on its bundle",
                                  {"scene": key, "n": n, "seed": seed, "photon": i})
                    break
            chk.add("traces_validated_against_impl", n)
        for workers in (0, 1, 2, 3, 4):
            for limit in sorted({1, max(1, workers - 1), max(1, workers)}):
                _, st = controlled(lambda: simulate(key, min(n, 2), seed, workers=workers), limit=limit)
                team = st[7] if st[2] else 1
                m = -(-n // chunk)
                cap = 7 if base.THOROUGH else 4
                if team ** m > (5000 if base.THOROUGH else 300):
                    # exhaustive up to renaming of the threads
                    gen = [a for a in itertools.product(range(team), repeat=m)
                           if all(a[j] <= max(a[:j], default=-1) + 1 for j in range(m))]
                else:
                    gen = list(itertools.product(range(team), repeat=m)) if m <= cap else []
                orders = [tuple(p) + tuple(range(team, 8)) for p in itertools.permutations(range(team))]
                if not base.THOROUGH:
                    orders = [orders[0], orders[-1]] if team > 1 else orders[:1]
                for oi, order in enumerate(orders):
                    for a in gen:
                        if oi and n != sizes[-1] and n != chunk + 1:
                            continue
                        label = f"{key}/n{n}/w{workers}/team{team}"
                        rep = {"scene": key, "n": n, "seed": seed, "workers": workers, "team": team,
                               "chunk_to_thread": a, "thread_order": order[:team]}
                        r, st = controlled(lambda: simulate(key, n, seed, workers=workers), limit, order, a)
                        chk.add("transitions", st[1])
                        chk.add("schedules")
                        conflict(chk, label, st, rep)
                        h, t = hist(r), tallies(r)
                        if len(h) != n or not same(h, rh):
                            bad = [i for i in range(min(len(h), n)) if not same(h[i], rh[i])]
                            chk.violation(f"{label}:histories", f"{len(h)} histories of {n}; photons {bad[:5]} differ", rep)
                        d = differ(t, rt)
                        if d:
                            chk.violation(f"{label}:tallies", d, rep)
    chk.sample({"scene": key, "chunk": chunk, "bundle_sizes": sizes, "photon0_events": [e[0] for e in rh[0]]})


SAMPLE_SIZES = (0, 1, 2, 7, 65) if not base.THOROUGH else (0, 1, 2, 3, 7, 64, 65, 129)


def sampling(chk, key, seed, n):
    for n in (n,):
        for ms in (0, 1, 3, 30):
            full, _ = controlled(lambda: simulate(key, n, seed, maxsteps=ms, max_events=4 * ms + 8))
            fh, ft = hist(full), tallies(full)
            for stride in sorted({-1, 0, 1, 2, 3, 5, n // 2, n - 1, n, n + 1, 64}):
                for me in (2, 3, 4, 5, 8, 4 * ms + 8) if n <= 7 or base.THOROUGH else (5, 4 * ms + 8):
                    for workers in (1, 3):
                        label = f"{key}/sample/n{n}/stride{stride}/budget{me}/steps{ms}"
                        rep = {"scene": key, "n": n, "seed": seed, "record_every": stride, "max_events": me,
                               "maxsteps": ms, "workers": workers}
                        r, st = controlled(lambda: simulate(key, n, seed, maxsteps=ms, max_events=me,
                                                            record_every=stride, workers=workers))
                        chk.add("configurations")
                        conflict(chk, label, st, rep)
                        h, t = hist(r), tallies(r)
                        want = list(range(0, n, stride)) if stride > 0 else []
                        if list(map(int, r.recorded_indices)) != want or len(h) != len(want) or r.num_recorded != len(want) or r.num_rays != n:
                            chk.violation(f"{label}:indices", f"recorded {list(r.recorded_indices)} ({len(h)} histories), expected {want}", rep)
                            continue
                        d = differ(t, ft)
                        if d:
                            chk.violation(f"{label}:tallies", d, rep)
                        for j, i in enumerate(want):
                            chk.add("states", len(h[j]))
                            ok = same(h[j], fh[i])
                            if not ok and len(fh[i]) > me - 2:
                                # the record ends with a KILL when the budget could be used
                                # up by the next interaction (two events and the KILL
                                # itself); everything before is the photon's own history
                                k = len(h[j]) - 1
                                ok = 1 <= k < me and h[j][-1][0] == "KILL" and same(h[j][:-1], fh[i][:k]) and k >= me - 3
                            if not ok:
                                chk.violation(f"{label}:history", f"photon {i}: {[e[0] for e in h[j]]} is not what a budget of {me} "
                                              f"leaves of {[e[0] for e in fh[i]]}", rep)
                                break


def job(args):
    what, key, seed, n = args
    chk = base.Check("C04")
    (schedules if what == "schedules" else sampling)(chk, key, seed, n)
    return chk.cov, chk.viol


def main(chk):
    chk.assumptions += ["threads of a team run one after the other; other interleavings are equivalent because no two "
                        "threads make conflicting accesses (recorded for every execution)",
                        "instrumented by gcc -fsanitize=thread: accesses gcc proves thread-private are not recorded"]
    ensure()
    keys = SCENES if base.THOROUGH else SCENES[:2]
    jobs = []
    for s in ((5, 7) if base.THOROUGH else (5,)):
        for k in keys:
            jobs += [("schedules", k, s, n) for n in sizes_of(chunk_of(k, s))] + [("sampling", k, s, n) for n in SAMPLE_SIZES]
    jobs.sort(key=lambda j: -j[3])
    for j, r in zip(jobs, base.pmap(job, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j[0]}/{j[1]}:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
            continue
        cov, viol = r
        for k, v in cov.items():
            if k == "samples":
                for s in v: chk.sample(s)
            else:
                chk.add(k, v)
        for key, what, rep in viol:
            chk.violation(key, what, rep)
