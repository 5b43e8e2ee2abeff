import functools
import warnings

import numpy as np

from mc.core import product
from mc.env import ev, fn, pt
from mc.orb import KeplerianOrbit, SimpleTransitOrbit, TTVOrbit

RULE = ("cell = (orbit class, parametrization, number of planets, which parameters are shared scalars, input kind); model state = (method, "
        "time shape, planet); transition = evaluating one more planet or time; trace = one method evaluated on the whole table and compared "
        "with the stack of its scalar evaluations")
BOUNDS = ("4 orbit classes/forms x {scalar, 1, 2, 3} planets x {vector, mixed scalar/vector} x 9 input kinds x 6 time shapes x 13 methods; "
          "the scalar reference evaluations use Python numbers")
KINDS = ["float", "int", "list", "npfloat", "npint", "float32", "constant", "symbolic", "tuple"]


def cells(tier):
    out = product(kind=["kep"], form=["circ", "ecc", "sincos", "duration", "rho"], npl=[0, 1, 2, 3], mixed=[False, True], inp=KINDS)
    out += product(kind=["ttv"], form=["circ", "ecc"], npl=[1, 2, 3], mixed=[False], inp=KINDS)
    out += product(kind=["simple"], form=["circ"], npl=[0, 1, 2, 3], mixed=[False, True], inp=KINDS)
    full = KINDS if tier == "thorough" else ["float"]
    return [dict(x, full=full) for x in out if not (x["mixed"] and x["npl"] == 0)]


# every value is representable in float32, and INT values are whole numbers
BASE = dict(period=[3.0, 7.0, 10.0], t0=[1.0, -2.0, 4.0], b=[0.25, 0.5, 0.0], m_planet=[0.125, 0.0, 0.5], Omega=[0.5, 1.0, -2.0],
            ecc=[0.25, 0.0, 0.5], omega=[1.0, -2.0, 3.0], duration=[0.125, 0.25, 0.5], ror=[0.0, 0.25, 0.125])
INT = dict(period=[3, 7, 10], t0=[1, -2, 4], b=[0, 0, 0], m_planet=[0, 1, 2], Omega=[1, 0, -2], ecc=[0, 0, 0], omega=[1, -2, 3],
           duration=[1, 1, 2], ror=[0, 0, 1])
SHARED = dict(kep=("Omega", "t0", "m_planet"), simple=("t0", "ror"), ttv=())


def params(cell):
    names = dict(circ=["b"], ecc=["b", "ecc", "omega"], sincos=["b", "ecc", "omega"], duration=["b", "duration", "ror"], rho=["b"])[cell["form"]]
    names = ["period", "t0", "m_planet", "Omega"] + names
    if cell["kind"] == "simple":
        names = ["period", "t0", "b", "duration", "ror"]
    src = INT if cell["inp"] in ("int", "npint") else BASE
    return {k: src[k] for k in names}


def build(cls, form, kw, ttvs=None):
    kw = dict(kw)
    if form == "sincos":
        w = kw.pop("omega")
        w = np.asarray(w, float) if not hasattr(w, "owner") else w
        kw["sin_omega"], kw["cos_omega"] = (pt.sin(w), pt.cos(w)) if hasattr(w, "owner") else (np.sin(w), np.cos(w))
    if form == "rho":
        kw["rho_star"] = 2.0
    elif cls is not SimpleTransitOrbit:
        kw["r_star"] = 0.75
        if form != "duration":
            kw["m_star"] = 1.5
    if cls is SimpleTransitOrbit:
        kw["r_star"] = 0.75
    if ttvs is not None:
        kw["ttvs"] = ttvs
    return cls(**kw)


def convert(x, inp, sym):
    """x is a Python number or a list of numbers."""
    if inp in ("float", "int"):
        return x
    if inp == "list":
        return list(x) if isinstance(x, list) else x
    if inp == "tuple":
        return tuple(x) if isinstance(x, list) else x
    if inp == "npfloat":
        return np.array(x, dtype=float)
    if inp == "npint":
        return np.array(x, dtype=np.int64)
    if inp == "float32":
        return np.array(x, dtype=np.float32)
    if inp == "constant":
        return pt.as_tensor_variable(np.array(x, dtype=float))
    # axes of unknown length are never squeezed, so a length of one is always static
    v = pt.tensor(dtype="float64", shape=(None if len(x) > 1 else 1,) if isinstance(x, list) else ())
    sym.append((v, np.array(x, dtype=float)))
    return v


TIMES = [("scalar", 1), ("scalar", 7.5), ("one", [2]), ("vec", [0, 1, 2, 5, 30, -17]), ("mat", [[0, 1, 4], [-3, 8, 2]]), ("col", [[1], [2]])]


def methods(o, simple, delay):
    m = {"relative position": lambda t: list(o.get_relative_position(t)), "planet position": lambda t: list(o.get_planet_position(t))}
    if simple:
        return m
    m.update({"star position": lambda t: list(o.get_star_position(t)),
              "star velocity": lambda t: list(o.get_star_velocity(t)), "planet velocity": lambda t: list(o.get_planet_velocity(t)),
              "relative velocity": lambda t: list(o.get_relative_velocity(t)), "star acceleration": lambda t: list(o.get_star_acceleration(t)),
              "planet acceleration": lambda t: list(o.get_planet_acceleration(t)),
              "relative acceleration": lambda t: list(o.get_relative_acceleration(t)),
              "radial velocity": lambda t: [o.get_radial_velocity(t)], "radial velocity, K": lambda t: [o.get_radial_velocity(t, K=3.0)],
              "angles": lambda t: list(o.get_relative_angles(t, parallax=0.25))})
    m["delayed position"] = lambda t: list(o.get_relative_position(t, light_delay=True))
    return m


ALLT = np.unique(np.concatenate([np.ravel(np.array(t, float)) for _, t in TIMES]))


@functools.lru_cache(maxsize=64)
def reference(kind, form, kw, ttv):
    cls = dict(kep=KeplerianOrbit, ttv=TTVOrbit, simple=SimpleTransitOrbit)[kind]
    kw = dict(kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if ttv is not None:
            one = build(cls, form, {k: [v] for k, v in kw.items()}, [np.array(ttv, dtype=float)])
        else:
            one = build(cls, form, kw)
    tv = pt.dscalar()
    names, res = [], []
    for name, f in methods(one, kind == "simple", True).items():
        r = f(tv)
        names.append((name, len(res), len(r)))
        res += r
    G = fn([tv], res)
    return names, np.array([[np.asarray(x) for x in G(t)] for t in ALLT], dtype=float)


def run(c, cell):
    cls = dict(kep=KeplerianOrbit, ttv=TTVOrbit, simple=SimpleTransitOrbit)[cell["kind"]]
    simple = cls is SimpleTransitOrbit
    npl, vals = cell["npl"], params(cell)
    shared = SHARED[cell["kind"]] if cell["mixed"] else ()
    full = {k: (v[0] if k in shared or npl == 0 else v[:npl]) for k, v in vals.items()}
    ttv = [[0.0, 0.25, -0.5], [0.5, 0.125], [-0.25, 0.0]]
    ttvs = ttv[: max(npl, 1)] if cls is TTVOrbit else None
    sym = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tt = None
        if ttvs is not None:
            tt = [convert(list(x) if cell["inp"] not in ("int", "npint") else [0, 1, -1][: len(x)], cell["inp"], sym) for x in ttvs]
        o = build(cls, cell["form"], {k: convert(v, cell["inp"], sym) for k, v in full.items()}, tt)
    m = methods(o, simple, True)
    tkind = cell["inp"]
    outs, spec = [], []
    for tname, t in (TIMES if cell["inp"] in cell["full"] else [TIMES[1], TIMES[4]]):
        for name, f in m.items():
            ts = np.array(t, dtype=float)
            if tkind in ("int", "npint") and np.all(ts == np.round(ts)):
                arg = np.array(t, dtype=np.int64) if tkind == "npint" else (t if np.ndim(t) == 0 else np.array(t, dtype=np.int32))
            elif tkind == "float32":
                arg = np.array(t, dtype=np.float32)
            elif tkind in ("list", "tuple"):
                arg = t
            elif tkind == "constant":
                arg = pt.as_tensor_variable(ts)
            elif tkind == "symbolic":
                arg = pt.tensor(dtype="float64", shape=tuple(1 if n == 1 else None for n in ts.shape))
                sym.append((arg, ts))
            else:
                arg = float(ts) if ts.ndim == 0 else ts
            res = f(arg)
            spec.append((tname, ts, name, len(outs), len(res)))
            outs += res
    F = fn([v for v, _ in sym], outs)
    got = [np.asarray(x) for x in F(*[x for _, x in sym])]
    # scalar reference evaluations: one planet and one time at a time, from Python numbers
    single = []
    for j in range(max(npl, 1)):
        kw = tuple((k, float(v[0] if k in shared or npl == 0 else v[j])) for k, v in vals.items())
        tv = None
        if ttvs is not None:
            tv = tuple(([0, 1, -1] if cell["inp"] in ("int", "npint") else ttvs[j])[: len(ttvs[j])])
        single.append(reference(cell["kind"], cell["form"], kw, tv))
    allt = ALLT
    for tname, ts, name, i, k in spec:
        for q in range(k):
            shape = tuple(s for s in ts.shape + ((npl,) if npl else (1,)) if s != 1)
            want = np.empty(ts.shape + (max(npl, 1),))
            for j, (names, table) in enumerate(single):
                lo = [x for x in names if x[0] == name][0][1]
                want[..., j] = table[np.searchsorted(allt, ts), lo + q]
            want = want.reshape(shape)
            g = got[i + q]
            sc = 1e-9 * (1 + np.max(np.abs(want)) if want.size else 1)
            if name == "angles" and q == 1:
                d = np.mod(g - want + np.pi, 2 * np.pi) - np.pi if g.shape == want.shape else g
                c.close(f"{name}, times {tname}", d, np.zeros(shape), 1e-8 + 0 * want) if g.shape == want.shape else \
                    c.fail(f"{name}, times {tname}: wrong shape", got=g.shape, want=shape)
            elif simple and q == 2:
                c.close(f"{name} z, times {tname}", g, want, 0)
            else:
                c.close(f"{name}[{q}], times {tname}", g, want, sc, dict(t=ts[..., None] if len(shape) > ts.ndim else ts))
            c.state((tname, ts.shape, name, q))
        c.step(ts.size * max(npl, 1))
        c.trace()
    c.outcome(f"{npl} planets", len(spec))
    c.sample(method=spec[0][2], got=got[0])
