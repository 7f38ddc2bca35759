from mc import base, choice
choice.install()
import itertools
import numpy as np
from mc import transport as T, scenes, pvbuild, kernel, recount as R  # noqa
from checks import c05

OPTS = [{}, {"emit_method": "full"}, {"maxsteps": 2, "emit_method": "redshift"}]


def scene_with_lights(key, nl, custom):
    """The first `nl` of three lights that always emit the same photon each."""
    L = pvbuild.load()
    from pvtrace.light.light import ConstantWavelengthMask
    spec = scenes.family()[key]
    nodes = pvbuild.build_nodes(L, spec)
    R.build(c05.recorder_specs(spec, 0), {n.name: n for n in nodes})
    pos, d, nm = spec["rays"][0]
    parents = [nodes[0], nodes[-1], nodes[0]]
    for i in range(nl):
        wav = ConstantWavelengthMask(nm + 13.0 * i)
        if custom and i == 1:
            wav = lambda: nm + 13.0     # not a built-in: per-photon emission path
        ln = L["Node"](name=f"lamp{i}", parent=parents[i], light=L["Light"](wavelength=wav, name=f"light-{i}"))
        ln.rotate(0.2 + 0.9 * i, (0.3, 1.0, 0.1 * i))
        ln.translate((0.11 * i, 0.07 - 0.02 * i, 0.05 * i))
    return L["Scene"](nodes[0])


def canon(result):
    return [[(r.position, r.direction, r.wavelength, r.travelled, r.duration, r.source, e.name, tuple(sorted(
        (k, v) for k, v in m.items()))) for r, e, m in h] for h in result.histories()]


def tallies(results):
    out = {}
    for res in results:
        for name, r in res.recorders.items():
            e = out.setdefault(name, [0, 0, np.zeros(0), []])
            e[0] += r.rays
            e[1] += r.crossings
            mom = np.array([[r.mean(p) * r.rays if r.rays else 0.0, (r.std(p) ** 2 + r.mean(p) ** 2) * r.rays if r.rays else 0.0]
                            for p in R.MOM])
            e[2] = mom if e[2].size == 0 else e[2] + mom
            hs = [np.asarray(r.histogram(i)[-1]) for i in range(len(r.spec.histograms))]
            e[3] = hs if not e[3] else [a + b for a, b in zip(e[3], hs)]
    return out


def same_tallies(a, b):
    for n in set(a) | set(b):
        if n not in a or n not in b:
            return "recorder %s missing" % n
        x, y = a[n], b[n]
        if (x[0], x[1]) != (y[0], y[1]):
            return f"{n}: {x[0]} photons/{x[1]} crossings against {y[0]}/{y[1]}"
        if not np.allclose(x[2], y[2], rtol=1e-6, atol=1e-9 * (1 + np.abs(y[2]).max())):
            return f"{n}: moments differ"
        if any(not np.array_equal(p, q) for p, q in zip(x[3], y[3])):
            return f"{n}: histograms differ"
    return None


def job(args):
    key, nl, custom, oi, nmax = args
    from pvtrace import engine
    sc = scene_with_lights(key, nl, custom)
    opts = OPTS[oi]
    bad, runs, states, bundles = [], 0, 0, 0
    distinct = set()
    for n in range(nmax + 1):
        for seed in (7, None, 0):
            T.D.start(() if seed != 0 else ((0, 0.3),))
            one = engine.simulate(sc, n, seed=seed, workers=1, record_every=1, max_events=512, **opts)
            full = canon(one)
            distinct.update(map(str, full))
            want = tallies([one])
            for b in range(1, nmax + 2):
                for k in ((0, 1, 2, 3) if seed == 7 else (1,)):
                    for w in (1, 2):
                        lab = f"{key}/lights{nl}{'c' if custom else ''}/opts{oi}/n{n}/bundle{b}/every{k}/workers{w}/seed{seed}"
                        T.D.start(())
                        items = list(engine.simulate_stream(sc, n, bundle=b, seed=seed, workers=w, record_every=k,
                                                            max_events=512, **opts))
                        runs += 1
                        bundles += len(items)
                        tr = [t for _, t in items]
                        sizes = [r.num_rays for r, _ in items]
                        if list(np.cumsum(sizes)) != tr or (n and tr[-1] != n) or (not n and tr) or any(s < 1 or s > b for s in sizes):
                            bad.append((lab, f"progress {tr} with bundle sizes {sizes} for {n} photons"))
                            continue
                        first = 0
                        for r, t in items:
                            idx = [first + i for i in range(0, r.num_rays, k)] if k else []
                            got = canon(r)
                            states += sum(map(len, got))
                            if [int(i) + first for i in r.recorded_indices] != idx or len(got) != len(idx):
                                bad.append((lab, f"bundle at photon {first} kept histories of {list(r.recorded_indices)}"))
                            elif got != [full[i] for i in idx]:
                                j = next(i for i, g in zip(idx, got) if g != full[i])
                                bad.append((lab, f"photon {j} has a different history than in one run"))
                            first = t
                        if items:
                            c = same_tallies(tallies([r for r, _ in items]), want)
                            if c:
                                bad.append((lab, "tallies: " + c))
                        if len(bad) > 3:
                            return runs, states, bundles, len(distinct), bad
    # lights take turns, starting from the first
    order = [n.light.name for n in sc.light_nodes]
    if sorted(order) != [f"light-{i}" for i in range(nl)]:
        bad.append((f"{key}/lights{nl}", f"scene reports lights {order}"))
    for r, e in enumerate(full):
        if e[0][5] != order[r % nl]:
            bad.append((f"{key}/lights{nl}", f"photon {r} came from {e[0][5]}"))
    return runs, states, bundles, len(distinct), bad


def main(chk):
    chk.assumptions += ["lights emit deterministically, so that one run and a stream start from the same photons",
                        "natural random streams of seeds 7 and one drawn seed; every (photons, bundle, lights, stride, workers) up to the bound"]
    kernel.ensure()
    nmax = 9 if base.THOROUGH else 6
    keys = ("lsc", "nested", "times") if not base.THOROUGH else tuple(scenes.family())
    jobs = [(k, nl, c, oi, nmax) for k in keys for nl in (1, 2, 3) for c in ((False, True) if nl > 1 else (False,))
            for oi in range(len(OPTS))]
    for j, r in zip(jobs, base.pmap(job, jobs)):
        if base.is_exc(r):
            chk.violation(f"{j}:exception", r[1].strip().splitlines()[-1], {"job": j, "trace": r[1]})
            continue
        runs, states, bundles, distinct, bad = r
        chk.add("traces_validated_against_impl", runs)
        chk.add("states", states)
        chk.add("transitions", bundles)
        chk.add("distinct_photon_histories", distinct)
        chk.sample({"job": j, "streams": runs})
        for lab, c in bad:
            chk.violation(lab, c, {"config": lab})
