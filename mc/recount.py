"""Independent recount of recorder tallies from complete photon histories."""
import math

from mc import model

MOM = ("wavelength", "angle", "duration", "pathlength")


class Spec:
    """A recorder in plain form; hists: list of (prop, lo, hi, n) or a pair."""

    def __init__(self, name, node, event, facet=None, atol=1e-6, hists=()):
        self.name, self.node, self.event, self.facet, self.atol = name, node, event, facet, atol
        self.hists = list(hists)


def build(spec_list, nodes_by_name):
    """Attach pvtrace Recorder objects to the nodes."""
    from pvtrace.engine import Recorder, Histogram, Heatmap
    for s in spec_list:
        hs = []
        for h in s.hists:
            if isinstance(h[0], tuple):
                hs.append(Heatmap(h[0][0], h[1][0], h[0][1:], h[1][1:]))
            else:
                hs.append(Histogram(*h))
        nodes_by_name[s.node].recorders.append(
            Recorder(s.name, event=s.event, facet=s.facet, atol=s.atol, histograms=hs))


def selector(e):
    """(event selector, node) of one history event, or None."""
    k = e["event"]
    if k == "TRANSMIT":
        return ("escaping" if e["container"] == e["hit"] else "entering"), e["hit"]
    if k == "REFLECT":
        return ("reflected", e["hit"]) if e["container"] != e["hit"] else None
    return {"NONRADIATIVE": ("lost", e["container"]), "REACT": ("reacted", e["container"]),
            "KILL": ("killed", e["container"]), "EXIT": ("exit", e["hit"])}.get(k)


class Tally:
    def __init__(self, spec):
        self.spec = spec
        self.rays = self.crossings = 0
        self.mom = [[0.0, 0.0] for _ in MOM]
        self.bins = [dict() for _ in spec.hists]
        self.slack = [dict() for _ in spec.hists]
        self.edge = math.inf     # nearest facet comparison to its tolerance


def bins_of(v, h):
    """Set of possible bins (None = outside) allowing for rounding at edges."""
    _, lo, hi, n = h
    w = (hi - lo) / n
    x = (v - lo) / w
    out = set()
    for d in (-1e-9, 1e-9):
        i = math.floor(x + d)
        out.add(i if 0 <= i < n else None)
    return out


def recount(specs, histories, scene):
    """scene: model.Scene (for poses and normals); histories: event dict lists."""
    byname = {nd["name"]: i for i, nd in enumerate(scene.nodes)}
    index = {}
    T = [Tally(s) for s in specs]
    for t in T:
        index.setdefault((t.spec.event, t.spec.node), []).append(t)
    for hist in histories:
        seen = set()
        for i, e in enumerate(hist):
            sel = selector(e)
            if sel is None or sel not in index:
                continue
            ni = byname[sel[1]]
            nrm = None
            if e["event"] in ("TRANSMIT", "REFLECT", "EXIT"):
                nrm = scene.normal(ni, e["pos"])
            for t in index[sel]:
                f = t.spec.facet
                if f is not None:
                    if nrm is None:
                        continue
                    gap = max(abs(a - b) for a, b in zip(f, nrm))
                    t.edge = min(t.edge, abs(gap - t.spec.atol) / max(t.spec.atol, 1e-12))
                    if gap > t.spec.atol:
                        continue
                t.crossings += 1
                if id(t) in seen:
                    continue
                seen.add(id(t))
                t.rays += 1
                ang = 0.0
                if nrm is not None:
                    d = hist[i - 1]["dir"]
                    ang = math.acos(min(1.0, abs(model.dot(d, nrm))))
                loc = scene.to_local(ni, e["pos"])
                val = {"wavelength": e["nm"], "angle": ang, "duration": e["duration"],
                       "pathlength": e["travelled"], "x": loc[0], "y": loc[1], "z": loc[2]}
                for m, p in enumerate(MOM):
                    t.mom[m][0] += val[p]
                    t.mom[m][1] += val[p] ** 2
                for hi, h in enumerate(t.spec.hists):
                    if isinstance(h[0], tuple):
                        a, b = bins_of(val[h[0][0]], h[0]), bins_of(val[h[1][0]], h[1])
                        poss = {None if x is None or y is None else x * h[1][3] + y for x in a for y in b}
                    else:
                        poss = bins_of(val[h[0]], h)
                    tgt = t.bins[hi] if len(poss) == 1 else t.slack[hi]
                    for b in poss:
                        if b is not None:
                            tgt[b] = tgt.get(b, 0) + 1
    return T


def compare(T, results):
    """Complaints about RecorderResult objects against the recount."""
    import numpy as np
    bad = []
    if set(results) != {t.spec.name for t in T}:
        return [("recorders", "result names differ: %s" % sorted(results))]
    for t in T:
        r = results[t.spec.name]
        nm = t.spec.name
        if t.edge < 1e-6:
            continue
        if (r.rays, r.crossings) != (t.rays, t.crossings):
            bad.append((nm, f"counted {r.rays} photons / {r.crossings} crossings, histories say {t.rays} / {t.crossings}"))
            continue
        for m, p in enumerate(MOM):
            got = (r.mean(p), r.std(p), r.error(p))
            if t.rays == 0:
                if not all(math.isnan(x) for x in got):
                    bad.append((nm, f"{p} statistics of no photons are {got}"))
                continue
            mean = t.mom[m][0] / t.rays
            var = max(0.0, t.mom[m][1] / t.rays - mean * mean)
            sd = math.sqrt(var)
            want = (mean, sd, sd / math.sqrt(t.rays))
            scale = math.sqrt(t.mom[m][1] / t.rays) + 1e-300
            for g, w, tol, lab in zip(got, want, (1e-9, 1e-6, 1e-6), ("mean", "std", "error")):
                if not abs(g - w) <= tol * scale:
                    bad.append((nm, f"{lab} of {p} is {g!r}, histories say {w!r}"))
        for hi, h in enumerate(t.spec.hists):
            out = r.histogram(hi)
            if isinstance(h[0], tuple):
                ea, eb, cnt = out
                okedge = np.allclose(ea, np.linspace(h[0][1], h[0][2], h[0][3] + 1), rtol=1e-12, atol=0) and \
                    np.allclose(eb, np.linspace(h[1][1], h[1][2], h[1][3] + 1), rtol=1e-12, atol=0) and \
                    cnt.shape == (h[0][3], h[1][3])
            else:
                ea, cnt = out
                okedge = np.allclose(ea, np.linspace(h[1], h[2], h[3] + 1), rtol=1e-12, atol=0) and cnt.shape == (h[3],)
            if not okedge:
                bad.append((nm, f"histogram {h} has wrong edges or shape"))
                continue
            for b, c in enumerate(np.asarray(cnt).ravel().tolist()):
                lo = t.bins[hi].get(b, 0)
                if not lo <= c <= lo + t.slack[hi].get(b, 0):
                    bad.append((nm, f"histogram {h} bin {b} holds {c}, histories say {lo}"))
                    break
    return bad
