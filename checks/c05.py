from mc import base, choice
choice.install()
import math
from mc import transport as T, scenes, pvbuild, model, kernel, engine as E, recount as R  # noqa

EVENTS = ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit")
SURFACE = ("entering", "escaping", "reflected", "exit")
SPLIT = 4          # recorder sets per scene, so that each stays below the limit


def hists_for(k):
    """Histogram menus: ranges cut through the values that occur, so that some
    fall just below, inside and just above."""
    menu = [
        ("wavelength", 505.0, 640.0, 3), ("wavelength", 300.0, 900.0, 7), ("wavelength", 519.0, 521.0, 1),
        ("angle", 0.15, 0.9, 4), ("angle", 0.0, 1.5707963267948966, 5),
        ("duration", 1e-10, 6e-10, 5), ("duration", 3e-10, 4e-8, 2),
        ("pathlength", 3.0, 9.0, 6), ("pathlength", 1.7, 3.1, 1),
        ("x", -0.3, 0.6, 3), ("y", -0.05, 1.4, 4), ("z", -0.45, 0.55, 2), ("x", 0.1, 2.0, 1),
        (("x", -1.0, 1.0, 3), ("y", -1.2, 0.3, 2)), (("z", -0.2, 3.0, 2), ("wavelength", 450.0, 700.0, 5)),
        (("angle", 0.1, 1.2, 2), ("pathlength", 2.0, 12.0, 4)), (("y", 0.1, 0.9, 1), ("z", -3.0, 0.1, 3)),
    ]
    return [menu[(k + j * 5) % len(menu)] for j in range(k % 4 + 1)]


def recorder_specs(spec, which):
    mo = model.Scene(spec)
    out, k = [], 0
    for i, nd in enumerate(spec["nodes"]):
        if not nd.get("shape"):
            continue
        for ev in EVENTS:
            k += 1
            out.append(R.Spec(f"{nd['name']}-{ev}", nd["name"], ev, hists=hists_for(k)))
            if ev not in SURFACE:
                continue
            axes = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
            if nd["shape"][0] == "cyl":
                axes = axes[4:]
            facets = [(mo.vec_world(i, a), 1e-6) for a in axes]
            if nd["shape"][0] != "box":
                facets.append((mo.vec_world(i, (1, 0, 0)), 0.7))
            f = mo.vec_world(i, (0, 0, 1))
            facets.append(((f[0] + 0.01, f[1] - 0.01, f[2]), 0.011))
            facets.append(((f[0] + 0.01, f[1], f[2]), 0.009))
            facets.append(((f[0], f[1], -f[2]), 0.4))
            facets.append(((f[0], f[1], f[2] + 0.3), 0.31))
            facets.append(((0.0, 0.0, 0.0), 1.5))
            for fi, (f, tol) in enumerate(facets):
                k += 1
                out.append(R.Spec(f"{nd['name']}-{ev}-f{fi}", nd["name"], ev, facet=tuple(f), atol=tol, hists=hists_for(k)))
    return [s for j, s in enumerate(out) if j % SPLIT == which]


def attach(which):
    def f(spec, nodes):
        R.build(recorder_specs(spec, which), {n.name: n for n in nodes})
    return f


ATT = [attach(w) for w in range(SPLIT)]


def configs():
    out = []
    for key, s in scenes.family().items():
        for ri in range(len(s["rays"])):
            ms = s.get("maxsteps", 5)
            for w in range(SPLIT):
                out.append((f"{key}/{ri}/set{w}", key, ri, {"maxsteps": ms}, T.COARSE if base.THOROUGH else T.TINYA, 2, w))
                if base.THOROUGH:
                    out.append((f"{key}/{ri}/set{w}/full", key, ri, {"maxsteps": 2, "emit_method": "full"}, T.COARSE, 2, w))
    return out


def job(cfg):
    label, key, ri, opts, alphabet, B, w = cfg
    from pvtrace.engine import tally_histories
    spec = scenes.family()[key]
    specs = recorder_specs(spec, w)
    mo = model.Scene(spec)
    run = E.runner(key, ri, opts, ATT[w])
    sc = E._c[(key, ri, ATT[w])][0]
    complaints, ex, ev, hits = [], 0, 0, {}
    silent = E.runner(key, ri, opts, ATT[w], record_every=0)
    for part, used, result in kernel.explore(run, alphabet, B, chunk=2000):
        hs = list(result.histories())
        dicts = [[pvbuild.as_dict(r, e, m) for r, e, m in h] for h in hs]
        ex += len(dicts)
        ev += sum(map(len, dicts))
        tl = R.recount(specs, dicts, mo)
        for t in tl:
            hits[t.spec.name] = hits.get(t.spec.name, 0) + t.crossings
        for what, res in (("engine", result.recorders), ("python tally", tally_histories(sc, hs))):
            for nm, c in R.compare(tl, res)[:2]:
                # locate one photon that shows it
                single = None
                for devs, d in zip(part, dicts):
                    with kernel.Script([devs]) as s:
                        one = run(1, s.seed)
                    rr = one.recorders if what == "engine" else tally_histories(sc, list(one.histories()))
                    if R.compare(R.recount(specs, [d], mo), rr):
                        single = (devs, [x["event"] for x in d])
                        break
                complaints.append((what, nm, c, single))
        with kernel.Script(part) as s:
            quiet = silent(len(part), s.seed)
        for nm, c in R.compare(tl, quiet.recorders)[:1]:
            complaints.append(("engine without histories", nm, c, None))
        if len(complaints) > 3:
            break
    # the pure-Python pipeline: tracer histories into tally_histories
    pys, pex = [], 0
    for devs, n, _ in choice.explore(T.run_impl(key, ri, opts), T.TINYA, 1):
        L, sp, s0, _, _ = T.impl_scene(key)
        pos, d, nm = spec["rays"][ri]
        T.D.start(devs)
        pys.append(list(L["photon_tracer"].step_forward(s0, L["Ray"](pos, d, nm, source=T.SRC), **opts)))
    dicts = [[pvbuild.as_dict(r, e, m) for r, e, m in h] for h in pys]
    for nm, c in R.compare(R.recount(specs, dicts, mo), tally_histories(sc, pys))[:2]:
        complaints.append(("python tally of tracer", nm, c, None))
    return label, ex, ev, len(pys), hits, complaints


def main(chk):
    chk.assumptions += ["random draws are abstracted to a default and an alphabet of representatives; at most B depart from the default",
                        "a histogram value within 1e-9 bin widths of an edge may be counted on either side",
                        "node names are distinct"]
    kernel.ensure()
    cfgs = configs()
    hit_all = {}
    for cfg, r in zip(cfgs, base.pmap(job, cfgs)):
        if base.is_exc(r):
            chk.violation(f"{cfg[0]}:exception", r[1].strip().splitlines()[-1], {"config": cfg[:4], "trace": r[1]})
            continue
        label, ex, ev, pex, hits, complaints = r
        chk.add("traces_validated_against_impl", ex)
        chk.add("states", ev)
        chk.add("transitions", ev - ex)
        chk.add("python_tracer_executions", pex)
        for k, v in hits.items():
            hit_all[(cfg[1], k)] = hit_all.get((cfg[1], k), 0) + v
        for what, nm, c, single in complaints:
            chk.violation(f"{label}:{what}:{nm}", f"{what}: recorder {nm}: {c}",
                          {"config": label, "recorder": nm, "photon": single, "default": 0.5,
                           "ray": scenes.family()[cfg[1]]["rays"][cfg[2]], "opts": cfg[3]})
    chk.add("recorders", len(hit_all))
    chk.add("recorders_that_fired", sum(1 for v in hit_all.values() if v))
    evs = {}
    for (s, k), v in hit_all.items():
        e = k.split("-")[1]
        evs[e] = evs.get(e, 0) + v
    chk.sample({"crossings_by_event": evs})
    empty(chk)


def empty(chk):
    """Recorders over no photons at all."""
    sc = E.engine_scene("lsc", 0, ATT[0])[0]
    from pvtrace import engine
    from pvtrace.engine import tally_histories
    specs = recorder_specs(scenes.family()["lsc"], 0)
    tl = R.recount(specs, [], model.Scene(scenes.family()["lsc"]))
    for what, f in (("engine", lambda: engine.simulate(sc, 0, seed=1, workers=1).recorders),
                    ("python tally", lambda: tally_histories(sc, []))):
        res = chk.guard(f"empty:{what}", f)
        for nm, c in (R.compare(tl, res) if res is not None else [])[:1]:
            chk.violation(f"empty:{what}", f"{nm}: {c}")
