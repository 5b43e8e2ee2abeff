import logging
import re

import numpy as np
import pymc as pm

from mc.core import product
from mc.env import xo

logging.getLogger().setLevel(logging.CRITICAL)
from exoplanet.citations import get_citations_for_model  # noqa: E402

RULE = ("cell = (first operation, alphabet); model state = the set of components registered in each of three models (two nested, one separate) and the sequence that "
        "led there; transition = building one more component in a context, through the model argument, in both or outside any model; trace = a sequence of "
        "operations, all models being queried after each at every line width")
BOUNDS = ("every sequence of 2 operations from 8 components x 9 places (72 operations), and every sequence of 3 (thorough: 4) from 4 components x 4 places; "
          "line widths 1, 20, 30, 79, 200 and the default")
PLACES = ["in A", "in B", "in C", "nowhere", "model=A", "model=B", "model=C", "model=A in C", "model=C in B"]
NEED = {"orbit": {"exoplanet:astropy13", "exoplanet:astropy18"}, "ttv": {"exoplanet:astropy13", "exoplanet:astropy18"}, "simple": set(),
        "star": {"exoplanet:luger18", "exoplanet:agol20"}, "eclipse": {"exoplanet:luger18", "exoplanet:agol20"}, "quad": {"exoplanet:kipping13"},
        "kipping": {"exoplanet:kipping13b"}, "vaneylen": {"exoplanet:vaneylen19"}}
CORE = {"exoplanet:joss", "exoplanet:zenodo"}
BASE = {"exoplanet:arviz"}
SMALL = (["orbit", "star", "quad", "kipping"], ["in A", "in B", "model=A", "in C"])
WIDTHS = [None, 1, 20, 30, 79, 200]


def cells(tier):
    full = product(comp=list(NEED), place=PLACES, depth=[2], alphabet=["full"])
    small = product(comp=SMALL[0], place=SMALL[1], depth=[4 if tier == "thorough" else 3], alphabet=["small"])
    return [x for x in full + small if legal(x["comp"], x["place"])]


def legal(comp, place):
    if comp in ("quad", "kipping", "vaneylen"):
        # random variables need a context; quad_limb_dark registers its variables in the context as well
        return place != "nowhere" and not (comp == "quad" and place.startswith("model="))
    return comp != "simple" or not place.startswith("model=")


def make(comp, n, model):
    kw = {} if model is None else dict(model=model)
    if comp == "orbit":
        xo.orbits.KeplerianOrbit(period=3.0, **kw)
    elif comp == "ttv":
        xo.orbits.TTVOrbit(period=np.array([3.0]), t0=np.array([0.5]), ttvs=[np.array([0.0, 0.1])], **kw)
    elif comp == "simple":
        xo.orbits.SimpleTransitOrbit(period=3.0, duration=0.1)
    elif comp == "star":
        xo.LimbDarkLightCurve(0.3, 0.2, **kw)
    elif comp == "eclipse":
        xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.0], 0.3, **kw)
    elif comp == "quad":
        xo.distributions.quad_limb_dark(f"u{n}", **kw)
    elif comp == "kipping":
        xo.distributions.eccentricity.kipping13(f"k{n}", **kw)
    else:
        xo.distributions.eccentricity.vaneylen19(f"v{n}", **kw)


class World:
    def __init__(self):
        with pm.Model() as self.A:
            with pm.Model(name="sub") as self.B:
                pass
        with pm.Model() as self.C:
            pass
        self.have = dict(A=set(), B=set(), C=set())
        self.n = 0

    def apply(self, op):
        comp, place = op
        self.n += 1
        where = place.split(" in ")[1] if " in " in place else place[3] if place.startswith("in ") else None
        target = place[6] if place.startswith("model=") else where
        arg = getattr(self, target) if place.startswith("model=") else None
        if where == "B":
            with self.A:
                with self.B:
                    make(comp, self.n, arg)
        elif where is not None:
            with getattr(self, where):
                make(comp, self.n, arg)
        else:
            make(comp, self.n, arg)
        if target is not None:
            self.have[target].add(comp)


def check(c, w, trail, widths):
    for name in "ABC":
        model, comps = getattr(w, name), w.have[name]
        keys = set().union(*[NEED[k] for k in comps]) if comps else set()
        for width in widths:
            kw = {} if width is None else dict(width=width)
            txt, bib = get_citations_for_model(model=model, **kw)
            if not keys:
                c.expect(txt == "" and bib == "", "empty strings without registered components", model=name, trail=trail, got=[txt, bib[:80]])
                c.outcome("empty")
                continue
            c.outcome("cited")
            flat = " ".join(txt.split())
            named = [k.strip() for grp in re.findall(r"\\citep\{([^}]*)\}", flat) for k in grp.split(",")]
            defined = re.findall(r"^@\w+\{([^,\s]+),", bib, flags=re.M)
            c.expect(sorted(named) == sorted(keys | CORE | BASE), "keys of the acknowledgement", model=name, trail=trail, got=sorted(named), want=sorted(keys | CORE | BASE), width=width)
            c.expect(sorted(defined) == sorted(keys | CORE | BASE), "entries of the bibliography, each once", model=name, trail=trail, got=sorted(defined))
            c.expect(bib.count("{") == bib.count("}"), "balanced entries", model=name)
            if width is not None and width >= 30:
                c.expect(max(len(x) for x in txt.split("\n")) <= width, "line width", got=txt, want=width)
            if name == "A" and width is None:
                with model:
                    c.expect(get_citations_for_model() == (txt, bib), "same by context as by argument", trail=trail)


def run(c, cell):
    if cell["alphabet"] == "full":
        ops = [(k, p) for k in NEED for p in PLACES if legal(k, p)]
    else:
        ops = [(k, p) for k in SMALL[0] for p in SMALL[1] if legal(k, p)]

    def explore(trail):
        w = World()
        for i, op in enumerate(trail):
            w.apply(op)
        check(c, w, trail, WIDTHS if len(trail) <= 2 else [None])
        if len(trail) > 1:  # querying must not disturb: replay with a query after every step
            w2 = World()
            for op in trail:
                w2.apply(op)
                check(c, w2, trail, [None])
        c.state(tuple(trail))
        c.step()
        c.trace()
        if len(trail) < cell["depth"]:
            for op in ops:
                explore(trail + [op])

    explore([(cell["comp"], cell["place"])])
    c.sample(sequence=[[cell["comp"], cell["place"]], list(ops[-1])])
