from mc import base, choice
choice.install()
import math
import numpy as np
from mc import transport as T, scenes, pvbuild, model, kernel, engine as E  # noqa


def configs():
    out = []
    fam = scenes.family()
    for key, s in fam.items():
        lumi = any(c["kind"] == "luminophore" for n in s["nodes"] for c in n["comps"])
        for ri in range(len(s["rays"])):
            ms = s.get("maxsteps", 5)
            out.append((f"{key}/{ri}/fine", key, ri, {"maxsteps": ms}, T.alphabet(s, T.fine(400 if base.THOROUGH else 100)), 1))
            out.append((f"{key}/{ri}/B2", key, ri, {"maxsteps": ms}, T.alphabet(s, T.COARSE), 2))
            if base.THOROUGH:
                out.append((f"{key}/{ri}/B3", key, ri, {"maxsteps": 4}, T.alphabet(s, T.TINYA), 3))
            if lumi:
                for em in ("redshift", "full"):
                    if em == "full" and (key, ri) in (("guide", 0), ("tandem", 1), ("group", 0)):
                        continue    # default draws bring these photons back onto a tie
                    out.append((f"{key}/{ri}/{em}", key, ri, {"maxsteps": ms, "emit_method": em},
                                T.COARSE if base.THOROUGH else T.TINYA, 2))
    for ms in (0, 1, 2, 3):
        out.append((f"lsc/0/steps{ms}", "lsc", 0, {"maxsteps": ms}, T.COARSE, 2))
        out.append((f"sheets/0/steps{ms}", "sheets", 0, {"maxsteps": ms}, T.COARSE, 2))
    return out


def job(cfg):
    label, key, ri, opts, alphabet, B = cfg
    mo = T.impl_scene(key)[4]
    mo.margin = math.inf
    run_m = T.run_model(key, ri, opts)
    lm = choice.OutcomeLaw(B, len(alphabet))
    for devs, n, hist in choice.explore(run_m, alphabet, B):
        lm.add(devs, n, *T.project(hist, "full"))
    lk = choice.OutcomeLaw(B, len(alphabet))
    events = 0
    for part, used, result in kernel.explore(E.runner(key, ri, opts), alphabet, B):
        for devs, n, h in zip(part, used, result.histories()):
            hist = [pvbuild.as_dict(r, e, m) for r, e, m in h]
            events += len(hist)
            lk.add(devs, n, *T.project(hist, "full"))
    # the Python tracer itself, to order 1
    lp = None
    if B <= 2:
        A1 = T.alphabet(scenes.family()[key], T.COARSE)
        lp = choice.OutcomeLaw(1, len(A1))
        for devs, n, hist in choice.explore(T.run_impl(key, ri, opts), A1, 1):
            lp.add(devs, n, *T.project(hist, "full"))
        lk1 = choice.OutcomeLaw(1, len(A1))
        for part, used, result in kernel.explore(E.runner(key, ri, opts), A1, 1):
            for devs, n, h in zip(part, used, result.histories()):
                lk1.add(devs, n, *T.project([pvbuild.as_dict(r, e, m) for r, e, m in h], "full"))
        dp = lk1.diff(lp)[:3]
        np_ = lp.execs
    else:
        dp, np_ = [], 0
    dm = lk.diff(lm)[:3]
    return label, lk.execs, events, len(lk.table), lm.execs, np_, mo.margin, dm, dp


def main(chk):
    chk.assumptions += ["random draws are abstracted to a default and an alphabet of representatives; at most B depart from the default",
                        "the kernel is compiled with gcc -O1 instead of -O3; same source, hooks on",
                        "photons start inside the world node; interfaces do not coincide"]
    kernel.ensure()
    cfgs = configs()
    for cfg, r in zip(cfgs, base.pmap(job, cfgs)):
        if base.is_exc(r):
            chk.violation(f"{cfg[0]}:exception", r[1].strip().splitlines()[-1], {"config": cfg[:4], "trace": r[1]})
            continue
        label, nk, events, distinct, nm, np_, margin, dm, dp = r
        chk.add("traces_validated_against_impl", nk)
        chk.add("states", events)
        chk.add("transitions", max(0, events - nk))
        chk.add("model_executions", nm)
        chk.add("python_tracer_executions", np_)
        chk.add("distinct_outcomes", distinct)
        if margin < 1e-9:
            chk.add("configs_skipped_for_ties")
            chk.log(f"{label}: skipped, tie margin {margin:.1e}")
            continue
        for what, d in (("reference", dm), ("python", dp)):
            for k, ma, mb, da, db in d:
                chk.violation(f"{label}:{what}", "engine law differs from the %s tracer's for %s: weights engine %s other %s"
                              % (what, "/".join(str(x[0]) for x in k), ma[:, 0].tolist(), mb[:, 0].tolist()),
                              {"config": label, "history": k, "engine_draws": da, "other_draws": db,
                               "default": 0.5, "ray": scenes.family()[cfg[1]]["rays"][cfg[2]], "opts": cfg[3]})
        chk.sample({"config": label, "engine_executions": nk, "distinct_histories": distinct})
