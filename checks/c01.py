import copy
import itertools
from mc import base, choice
choice.install()
from mc import transport as T, scenes, pvbuild  # noqa


def configs():
    out = []
    fam = scenes.family()
    for key, s in fam.items():
        for ri in range(len(s["rays"])):
            ms = s.get("maxsteps", 5)
            out.append((f"{key}/{ri}/B2", key, ri, {"maxsteps": ms}, T.alphabet(s, T.TINYA if not base.THOROUGH else T.COARSE), 2))
            if base.THOROUGH:
                out.append((f"{key}/{ri}/B3", key, ri, {"maxsteps": 4}, T.alphabet(s, [0.0137, 0.9863, 0.2371, 0.7629]), 3))
    for key, ri, mp in (("lsc", 0, 3.0), ("guide", 0, 2.5), ("times", 0, 0.9), ("nested", 1, 2.0), ("sheets", 0, 1e-3)):
        for em in ("kT", "redshift", "full"):
            out.append((f"{key}/{ri}/path{mp}/{em}", key, ri,
                        {"maxsteps": 7, "maxpathlength": mp, "emit_method": em}, T.TINYA, 1))
    for ms in (0, 1, 2, 3):
        out.append((f"lsc/0/steps{ms}", "lsc", 0, {"maxsteps": ms}, T.COARSE, 1))
    return out


def photon_pairs(key):
    """Every ordered pair (triple) of photons through one scene object: the last one's history
    must be what it is in a scene of its own."""
    L = pvbuild.load()
    spec = scenes.family()[key]
    variants = []
    for ri, (pos, d, nm) in enumerate(spec["rays"]):
        for dn in (0.0, 0.35, 0.8, -37.0):
            for devs in ((), ((0, 0.0137),)):
                variants.append((ri, dn, devs))

    def life(sc, v):
        ri, dn, devs = v
        pos, d, nm = spec["rays"][ri]
        T.D.start(devs)
        ray = L["Ray"](position=pos, direction=d, wavelength=nm + dn, source=T.SRC)
        return T.project([pvbuild.as_dict(r, e, m) for r, e, m in L["photon_tracer"].step_forward(sc, ray, maxsteps=5)], "full")
    alone = {v: life(pvbuild.build_scene(L, spec)[0], v) for v in variants}
    bad, n = [], 0
    for pre in itertools.product(variants, repeat=2 if base.THOROUGH and len(variants) <= 8 else 1):
        sc = pvbuild.build_scene(L, spec)[0]
        for v in pre:
            life(sc, v)
        for v in variants:      # v directly after the last of `pre`, in a copy of the scene's state
            sc2 = copy.deepcopy(sc)
            n += 1
            if life(sc2, v) != alone[v]:
                bad.append((pre, v))
                if len(bad) > 2:
                    return n, bad
    return n, bad


def main(chk):
    for key, r in zip(scenes.family(), base.pmap(photon_pairs, scenes.family())):
        if base.is_exc(r):
            chk.violation(f"{key}:pairs:exception", r[1].strip().splitlines()[-1], {"trace": r[1]})
            continue
        chk.add("photon_sequences", r[0])
        for pre, v in r[1]:
            chk.violation(f"{key}:stateful", f"photon {v} has another history after photons {pre}", {"config": key, "before": pre, "photon": v})
    chk.assumptions += ["random draws are abstracted to a default and an alphabet of representatives; at most B depart from the default",
                        "photons start inside the world node; interfaces do not coincide"]
    T.explore_all(chk, configs(), "full", True)
    # photons do not influence each other; follow() is step_forward() without metadata
    for key, s in scenes.family().items():
        L, spec, sc, nodes, mo = T.impl_scene(key)
        for ri in range(len(s["rays"])):
            run = T.run_impl(key, ri, {"maxsteps": 5})
            a, n = run(())
            b, _ = run(((0, 0.3),))
            c, _ = run(())
            if T.project(a, "full") != T.project(c, "full"):
                chk.violation(f"{key}/{ri}:stateful", "a photon's history changed after another photon was traced", {"config": key})
            pos, d, nm = s["rays"][ri]
            ray = L["Ray"](position=pos, direction=d, wavelength=nm, source=T.SRC)
            T.D.start(())
            f = L["photon_tracer"].follow(sc, ray, maxsteps=5)
            if [e["event"] for e in a] != [e.name for _, e in f] or \
                    [tuple(map(float, e["pos"])) for e in a] != [tuple(map(float, r.position)) for r, _ in f]:
                chk.violation(f"{key}/{ri}:follow", "follow() and step_forward() disagree", {"config": key})
            if (ray.position, ray.direction, ray.wavelength, ray.travelled) != (pos, d, nm, 0.0):
                chk.violation(f"{key}/{ri}:mutated", "tracing modified the initial photon", {"config": key})
            # leaving a photon half way must not disturb the next one
            T.D.start(())
            g = L["photon_tracer"].step_forward(sc, ray, maxsteps=5)
            next(g); next(g, None)
            del g
            e2, _ = run(())
            if T.project(a, "full") != T.project(e2, "full"):
                chk.violation(f"{key}/{ri}:stateful", "an abandoned trace disturbed the next photon", {"config": key})
    # a photon that can hit nothing yields only its generation
    L, spec, sc, nodes, mo = T.impl_scene("lsc")
    T.D.start(())
    h = list(L["photon_tracer"].step_forward(sc, L["Ray"]((0., 0., 50.), (0., 0., 1.), 555.0)))
    if [e.name for _, e, _ in h] != ["GENERATE"]:
        chk.violation("outside", "photon outside the world heading away: %s" % [e.name for _, e, _ in h])
