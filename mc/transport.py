"""Exhaustive deviation-bounded exploration of photon lives through the scene
family, on the Python tracer and on the reference model."""
import math

from mc import base, choice, model, pvbuild, scenes

D = choice.DRIVER
SRC = "src"

# Symmetric under u -> 1-u; avoids 0.5 (the default) and exact thresholds.
COARSE = [0.0137, 0.1373, 0.3119, 0.4391, 0.5609, 0.6881, 0.8627, 0.9863]
MINUTE = [1e-6, 1.1e-4, 2.3e-3, 0.0137, 0.9863, 1 - 2.3e-3, 1 - 1.1e-4, 1 - 1e-6]
TINYA = [0.0137, 0.2371, 0.7629, 0.9863]


def fine(k):
    return [(i + 0.5) / k + (1e-4 if i < k // 2 else -1e-4) for i in range(k)]


def alphabet(spec, normal):
    """Weakly attenuating scenes need draws next to the ends of (0, 1)."""
    return MINUTE if spec.get("tiny") else normal


_cache = {}


def impl_scene(key):
    """Build (once per process) the pvtrace scene and the model scene."""
    if key not in _cache:
        L = pvbuild.load()
        spec = scenes.family()[key]
        sc, nodes = pvbuild.build_scene(L, spec)
        _cache[key] = (L, spec, sc, nodes, model.Scene(spec))
    return _cache[key]


def run_impl(key, ri, opts):
    L, spec, sc, nodes, _ = impl_scene(key)
    pos, d, nm = spec["rays"][ri]

    def run(devs):
        D.start(devs)
        ray = L["Ray"](position=pos, direction=d, wavelength=nm, source=SRC)
        hist = [pvbuild.as_dict(r, e, m) for r, e, m in L["photon_tracer"].step_forward(sc, ray, **opts)]
        return hist, D.n
    return run


def run_model(key, ri, opts):
    _, spec, _, _, mo = impl_scene(key)
    pos, d, nm = spec["rays"][ri]
    kw = {"maxsteps": opts.get("maxsteps", 1000), "maxpath": opts.get("maxpathlength", math.inf),
          "method": opts.get("emit_method", "kT")}

    def run(devs):
        D.start(devs)
        return list(mo.trace((pos, d, nm, SRC), D.draw, **kw)), D.n
    return run


def project(hist, mode):
    ks, vs = [], []
    for e in hist:
        if mode == "law":
            ks.append((e["event"], e["hit"], e["container"], e["adjacent"], e["component"]))
            vs += [float(x) for x in e["pos"]] + [float(x) for x in e["dir"]]
        else:
            k, v = pvbuild.canon(e)
            ks.append(k)
            vs += [float(x) for x in v]
    return tuple(ks), vs


def invariants(hist, spec, opts):
    """C01's direct checks on one complete history.  Returns a complaint or None."""
    byname = {n["name"]: n for n in spec["nodes"]}
    comps = {c["name"]: c for n in spec["nodes"] for c in n["comps"]}
    terminal = {"EXIT", "NONRADIATIVE", "REACT", "KILL"}
    if not hist or hist[0]["event"] != "GENERATE":
        return "history does not start with GENERATE"
    if len(hist) > 1 and hist[-1]["event"] not in terminal:
        return "history does not end with a terminal event: %s" % hist[-1]["event"]
    emitter = SRC
    for i, e in enumerate(hist):
        if i and e["event"] == "GENERATE":
            return "second GENERATE"
        if i < len(hist) - 1 and e["event"] in terminal:
            return "event after terminal event"
        l = model.length(e["dir"])
        if not abs(l - 1) < 1e-9:
            return "direction is not a unit vector: %r" % l
        if i == 0:
            continue
        p = hist[i - 1]
        step = e["travelled"] - p["travelled"]
        if step < -1e-12:
            return "travelled distance decreased"
        want = model.along(p["pos"], p["dir"], step)
        if not model.length(model.sub(want, e["pos"])) < 1e-9:
            return "%s: position is not previous position + direction*distance" % e["event"]
        n = byname[e["container"]]["n"] if e["container"] else 1.0
        delay = e["duration"] - p["duration"] - step * n / model.C
        c = comps.get(e["component"])
        tau = None
        if c is not None:
            tau = {"EMIT": c.get("tau_rad"), "NONRADIATIVE": c.get("tau_nr"),
                   "REACT": c.get("tau_nr")}.get(e["event"])
        if delay < -1e-18 or (not tau and abs(delay) > 1e-17):
            return "%s: clock advanced by %g more than n d/c" % (e["event"], delay)
        if e["event"] != "EMIT" and e["nm"] != p["nm"]:
            return "%s changed the wavelength" % e["event"]
        after_abs = e["event"] in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT")
        if (p["event"] == "ABSORB") != after_abs:
            return "%s follows %s" % (e["event"], p["event"])
        if after_abs:
            if e["component"] != p["component"] or e["container"] != p["container"]:
                return "absorber and %s differ" % e["event"]
            if step != 0:
                return "photon moved between absorption and %s" % e["event"]
            kind = comps[e["component"]]["kind"]
            ok = {"EMIT": ("luminophore",), "SCATTER": ("scatterer",), "REACT": ("reactor",),
                  "NONRADIATIVE": ("absorber", "scatterer", "luminophore")}[e["event"]]
            if kind not in ok:
                return "%s by a %s" % (e["event"], kind)
        if e["event"] == "ABSORB" and e["component"] not in [c["name"] for c in byname[e["container"]]["comps"]]:
            return "absorbed by a component of another node"
        if e["event"] in ("EMIT", "SCATTER"):
            emitter = e["component"]
        if e["source"] != emitter:
            return "source tag %r, last emitter %r" % (e["source"], emitter)
        if e["event"] in ("ABSORB", "NONRADIATIVE", "REACT", "EXIT", "KILL") and e["dir"] != p["dir"] \
                and model.length(model.sub(e["dir"], p["dir"])) > 1e-12:
            return "%s changed the direction" % e["event"]
    inter = sum(1 for e in hist if e["event"] in ("REFLECT", "TRANSMIT", "ABSORB"))
    ms = opts.get("maxsteps", 1000)
    if inter > ms:
        return "%d interactions exceed maxsteps %d" % (inter, ms)
    if hist[-1]["event"] == "KILL":
        if inter < ms and not hist[-1]["travelled"] > opts.get("maxpathlength", math.inf):
            return "killed before a limit was reached"
    mp = opts.get("maxpathlength", math.inf)
    for e in hist[:-1]:
        pass
    over = [i for i, e in enumerate(hist) if e["travelled"] > mp and e["event"] in ("REFLECT", "TRANSMIT", "EMIT", "SCATTER")]
    if over and hist[over[0] + 1]["event"] != "KILL" if over and over[0] + 1 < len(hist) else False:
        return "photon went on beyond the path-length limit"
    return None


def job(args):
    """One subtree of one exploration; returns laws, counts, complaints."""
    who, key, ri, opts, alphabet, B, roots, mode, inv = args
    run = (run_impl if who == "impl" else run_model)(key, ri, opts)
    law = choice.OutcomeLaw(B, len(alphabet))
    complaints, states = [], 0
    if who == "model":
        impl_scene(key)[4].margin = math.inf
    spec = scenes.family()[key]
    for devs, n, hist in choice.explore(run, alphabet, B, roots):
        k, v = project(hist, mode)
        law.add(devs, n, k, v)
        states += len(hist)
        if inv and who == "impl":
            c = invariants(hist, spec, opts)
            if c and len(complaints) < 3:
                complaints.append((c, devs, [e["event"] for e in hist]))
    if who == "model":
        law.margin = impl_scene(key)[4].margin
    return law, states, complaints


def plan(who, key, ri, opts, alphabet, B, mode, inv, group=8):
    run = (run_impl if who == "impl" else run_model)(key, ri, opts)
    subs = choice.subtrees(run, alphabet, B)
    jobs = [(who, key, ri, opts, alphabet, 0, ((),), mode, inv)]
    # base execution must carry the same truncation order
    jobs = [("base", who, key, ri, opts, alphabet, B, mode, inv)]
    # interleave so that groups are of similar size
    if who == "model":
        group *= 8
    k = max(1, (len(subs) + group - 1) // group)
    for i in range(k):
        part = subs[i::k]
        jobs.append((who, key, ri, opts, alphabet, B, tuple(part), mode, inv))
    return jobs


def run_job(j):
    if j[0] == "base":
        _, who, key, ri, opts, alphabet, B, mode, inv = j
        run = (run_impl if who == "impl" else run_model)(key, ri, opts)
        hist, n = run(())
        law = choice.OutcomeLaw(B, len(alphabet))
        k, v = project(hist, mode)
        law.add((), n, k, v)
        comp = []
        if inv and who == "impl":
            c = invariants(hist, scenes.family()[key], opts)
            if c:
                comp.append((c, (), [e["event"] for e in hist]))
        return law, len(hist), comp
    return job(j)


def explore_all(chk, configs, mode, inv):
    """configs: list of (label, key, ri, opts, alphabet, B)."""
    jobs, index = [], []
    for ci, (label, key, ri, opts, alphabet, B) in enumerate(configs):
        for who in ("impl", "model"):
            try:
                js = plan(who, key, ri, opts, alphabet, B, mode, inv)
            except Exception as e:
                chk.violation(f"{label}:exception", f"{type(e).__name__}: {e}", {"config": label})
                continue
            for j in js:
                jobs.append(j)
                index.append((ci, who))
    order = sorted(range(len(jobs)), key=lambda i: -len(jobs[i][6]) if jobs[i][0] == "impl" else 0)
    res = base.pmap(run_job, [jobs[i] for i in order])
    merged, margins = {}, {}
    for i, r in zip(order, res):
        ci, who = index[i]
        label = configs[ci][0]
        if base.is_exc(r):
            chk.violation(f"{label}:{who}:exception", r[1].strip().splitlines()[-1], {"config": label, "trace": r[1]})
            continue
        law, states, complaints = r
        if who == "impl":
            chk.add("traces_validated_against_impl", law.execs)
            chk.add("states", states)
            chk.add("transitions", max(0, states - law.execs))
        for c, devs, evs in complaints:
            chk.violation(f"{label}:invariant", c, {"config": label, "draws": devs, "events": evs,
                                                   "default": D.default})
        m = merged.setdefault(ci, {})
        if who == "model":
            margins[ci] = min(margins.get(ci, math.inf), getattr(law, "margin", math.inf))
        m[who] = m[who].merge(law) if who in m else law
    for ci, m in merged.items():
        label, key, ri, opts, alphabet, B = configs[ci]
        if "impl" not in m or "model" not in m:
            continue
        if margins.get(ci, 1) < 1e-9:
            # some explored decision is a floating-point tie: the law is ambiguous
            chk.add("configs_skipped_for_ties")
            chk.log(f"{label}: skipped, tie margin {margins[ci]:.1e}")
            continue
        chk.add("distinct_outcomes", len(m["impl"].table))
        chk.add("model_executions", m["model"].execs)
        for k, ma, mb, da, db in m["impl"].diff(m["model"])[:3]:
            chk.violation(f"{label}:law", "outcome law differs from the reference for %s: weights impl %s reference %s"
                          % ("/".join(str(x[0]) for x in k), ma[:, 0].tolist(), mb[:, 0].tolist()),
                          {"config": label, "history": k, "impl_draws": da, "model_draws": db, "default": D.default,
                           "ray": scenes.family()[key]["rays"][ri], "opts": opts})
        mx = max(m["impl"].table.values(), key=lambda e: len(e[2]))
        chk.sample({"config": label, "executions": m["impl"].execs, "distinct_histories": len(m["impl"].table),
                    "one_history_found_with_draws": mx[2]})
    return merged
