from mc import base, choice
choice.install()
from mc import transport as T, scenes  # noqa


def configs():
    out = []
    fam = scenes.family()
    for key, s in fam.items():
        for ri in range(len(s["rays"])):
            ms = s.get("maxsteps", 4)
            out.append((f"{key}/{ri}/fine", key, ri, {"maxsteps": ms}, T.alphabet(s, T.fine(200 if base.THOROUGH else 64)), 1))
            out.append((f"{key}/{ri}/B2", key, ri, {"maxsteps": ms}, T.alphabet(s, T.COARSE if base.THOROUGH else [0.0137, 0.3119, 0.6881, 0.9863]), 2))
            if base.THOROUGH:
                out.append((f"{key}/{ri}/B3", key, ri, {"maxsteps": 4}, T.alphabet(s, [0.0137, 0.2371, 0.7629, 0.9863]), 3))
    return out


def main(chk):
    chk.assumptions += ["random draws are abstracted to a default and an alphabet of representatives; at most B depart from the default",
                        "photons start inside the world node; interfaces do not coincide"]
    T.explore_all(chk, configs(), "law", False)
