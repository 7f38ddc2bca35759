"""Scenes of the family as the engine sees them: the photon's initial state
comes from a placed default light."""
import math

from mc import pvbuild, scenes, transport as T

_c = {}


def axis_angle_from_z(d):
    z = max(-1.0, min(1.0, d[2]))
    ang = math.acos(z)
    ax = (-d[1], d[0], 0.0)
    l = math.hypot(ax[0], ax[1])
    if l < 1e-12:
        return (0.0 if z > 0 else math.pi), (1.0, 0.0, 0.0)
    return math.atan2(l, z), (ax[0] / l, ax[1] / l, 0.0)


class ConstWave:
    """A wavelength delegate equal to a built-in one."""


def engine_scene(key, ri, recorders=None, extra=None):
    """pvtrace scene with a light emitting ray `ri` deterministically."""
    L = pvbuild.load()
    from pvtrace.light.light import ConstantWavelengthMask
    spec = scenes.family()[key]
    nodes = pvbuild.build_nodes(L, spec)
    pos, d, nm = spec["rays"][ri]
    ln = L["Node"](name="lamp", parent=nodes[0], light=L["Light"](wavelength=ConstantWavelengthMask(nm), name=T.SRC))
    ang, ax = axis_angle_from_z(d)
    if ang:
        ln.rotate(ang, ax)
    ln.translate(pos)
    if recorders:
        recorders(spec, nodes)
    return L["Scene"](nodes[0]), nodes, spec


def runner(key, ri, opts, recorders=None, **kw):
    from pvtrace import engine
    k = (key, ri, recorders)
    if k not in _c:
        _c[k] = engine_scene(key, ri, recorders)
    sc = _c[k][0]
    args = dict(maxsteps=opts.get("maxsteps", 1000), emit_method=opts.get("emit_method", "kT"),
                workers=1, max_events=64, record_every=1)
    args.update(kw)

    def simulate(n, seed):
        return engine.simulate(sc, n, seed=seed, **args)
    return simulate
