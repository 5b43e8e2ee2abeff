import itertools

import numpy as np

from mc.core import product
from mc.env import ev, fn, pt
from mc.orb import KeplerianOrbit
from mc.ref import G, GCC

NAMES = ("period", "a", "m_star", "r_star", "rho_star")
RULE = ("kind=subset: all 2^5 subsets of {period,a,m_star,r_star,rho_star} x planet mass: legal ones are compared with the closed-form "
        "system, illegal ones must raise ValueError. kind=chain: breadth-first search over re-parametrizations: state = (parameter set "
        "the orbit was last built from, system), transition = rebuild the orbit through another legal set from its own attributes; every "
        "state reached along every chain up to the depth must still be the initial system")
BOUNDS = "32 subsets x 4 planet masses x 3 input ranks; chains of depth 3 (quick) / 4 over 12 legal sets x 128 systems"
ASSUMPTIONS = ["tolerance 1e-10 relative (constants) and 1e-13 for parameters that were given"]

STELLAR = [(), ("rho_star",), ("m_star", "r_star"), ("m_star", "rho_star"), ("r_star", "rho_star")]
LEGAL = [(k,) + s for k in ("period", "a") for s in STELLAR] + [("period", "a"), ("period", "a", "r_star")]
ATTRS = ("period", "a", "m_star", "r_star", "rho_star", "m_planet", "m_total", "n", "a_star", "a_planet")


def legal(sub):
    return tuple(sorted(sub)) in {tuple(sorted(x)) for x in LEGAL}


def system(P, ms, rs, mp):
    mt = ms + mp
    a = (G * mt * P**2 / (4 * np.pi**2)) ** (1 / 3)
    return dict(period=P, a=a, m_star=ms, r_star=rs, rho_star=3 * ms / (4 * np.pi * rs**3) * GCC, m_planet=mp, m_total=mt,
                n=2 * np.pi / P, a_star=a * mp / mt, a_planet=-a * ms / mt)


def star_for(sub, ms, rs):
    """The star implied by the documented defaults for this subset."""
    st = [x for x in sub if x in ("m_star", "r_star", "rho_star")]
    both = "period" in sub and "a" in sub
    if both:
        return ms, (rs if "r_star" in st else np.ones_like(rs))
    if not st:
        return np.ones_like(ms), np.ones_like(rs)
    if st == ["rho_star"]:
        return ms / rs**3, np.ones_like(rs)
    return ms, rs


def cells(tier):
    out = []
    for n in range(len(NAMES) + 1):
        for sub in itertools.combinations(NAMES, n):
            out += product(kind=["subset"], sub=[list(sub)], mp=["default", "zero", "none", "value"],
                           rank=["scalar", "one", "vector"])
    out += product(kind=["chain"], first=[list(x) for x in LEGAL], sun=[False, True], depth=[4 if tier == "thorough" else 3])
    return out


def run(c, cell):
    (subset if cell["kind"] == "subset" else chain)(c, cell)


def subset(c, cell):
    sub = tuple(cell["sub"])
    P = np.array([0.7, 0.03, 3.456, 40.0, 365.25, 9000.0])
    ms = np.array([1.0, 0.7, 0.12, 0.9, 2.5, 0.7])
    rs = np.array([1.0, 0.015, 0.2, 0.8, 2.9, 11.0])
    mp = np.array([0.0, 0.06, 1e-3, 0.04, 0.9, 1.4])
    if cell["mp"] != "value":
        mp = np.zeros(6)
    if cell["rank"] == "scalar":
        P, ms, rs, mp = [x[2] for x in (P, ms, rs, mp)]
    if cell["rank"] == "one":
        P, ms, rs, mp = [x[2:3] for x in (P, ms, rs, mp)]
    ok = legal(sub)
    st, ra = star_for(sub, ms, rs) if ok else (ms, rs)
    s = system(P, st, ra, mp)
    s0 = dict(s)
    # rho alone: the density is given, the star has unit radius
    kw = {k: s0[k] for k in sub}
    if cell["mp"] == "value":
        kw["m_planet"] = mp
    elif cell["mp"] == "zero":
        kw["m_planet"] = 0.0
    elif cell["mp"] == "none":
        kw["m_planet"] = None
    c.state((sub, cell["mp"], cell["rank"]))
    c.step()
    c.trace()
    if not ok:
        if c.raises(ValueError, f"illegal parameters {sub}", KeplerianOrbit, **kw):
            c.outcome("ValueError")
        return
    o = KeplerianOrbit(**kw)
    got = dict(zip(ATTRS, ev([getattr(o, k) for k in ATTRS])))
    for k in ATTRS:
        want = np.asarray(s[k], float)
        g = got[k]
        if g.shape != want.shape:
            # defaults may stay scalar
            c.expect(g.shape in ((), (1,)), f"{k}: shape", got=g.shape, want=want.shape)
            g = np.broadcast_to(g, want.shape)
        c.close(k, g, want, 1e-10 * np.abs(want) + (1e-10 * np.asarray(s["m_total"]) if k in ("m_star", "m_planet") else 0)
                + (1e-10 * np.asarray(s["a"]) if k == "a_star" else 0) + (1e-13 if k == "rho_star" else 0), dict(P=P, ms=ms, rs=rs, mp=mp))
        if k in sub:
            c.close(k + " was given", g, want, 1e-13 * np.abs(want))
    c.outcome("legal")
    c.sample(sub=sub, a=got["a"], rho=got["rho_star"])


def chain(c, cell):
    first = tuple(cell["first"])
    g = np.meshgrid([0.02, 0.7, 12.3, 400.0], [0.3, 1.0, 1.9, 30.0], [0.4, 1.0, 8.0, 0.015], [0.0, 0.25], indexing="ij")
    P, ms, rs, mp = [x.ravel() for x in g]
    if cell["sun"]:
        ms, rs = np.ones_like(ms), np.ones_like(rs)
    ms, rs = star_for(first, ms, rs)
    s = system(P, ms, rs, mp)
    vars_ = {k: pt.dvector(k) for k in NAMES + ("m_planet",)}
    fns = {}
    unit_r, sun = bool(np.all(rs == 1)), bool(np.all(rs == 1) and np.all(ms == 1))

    def enabled(sub):
        st = [x for x in sub if x in NAMES[2:]]
        both = "period" in sub and "a" in sub
        if both:
            return "r_star" in st or unit_r
        return bool(st) and (st != ["rho_star"] or unit_r) or (not st and sun)

    for sub in LEGAL:
        ins = [vars_[k] for k in sub] + [vars_["m_planet"]]
        o = KeplerianOrbit(**{k: vars_[k] for k in sub}, m_planet=vars_["m_planet"])
        fns[sub] = fn(ins, [getattr(o, k) + pt.zeros_like(vars_["m_planet"]) for k in ATTRS])

    def build(sub, attrs):
        return dict(zip(ATTRS, fns[sub](*[attrs[k] for k in sub], attrs["m_planet"])))

    frontier = [(first, build(first, s), [first])]
    n = 0
    for depth in range(cell["depth"]):
        nxt = []
        for last, attrs, path in frontier:
            for k in ATTRS:
                want = s[k]
                tol = 1e-9 * np.abs(want)
                if k in ("m_star",):
                    tol = 1e-9 * s["m_total"]
                elif k == "rho_star":
                    tol = 1e-9 * s["m_total"] / s["m_star"] * want
                elif k in ("a_star", "a_planet"):
                    tol = 1e-9 * s["a"]
                elif k == "r_star":
                    tol = 1e-9 * s["m_total"] / s["m_star"] * want
                if not c.close(f"{k} after re-parametrization", attrs[k], want, tol, dict(P=P, ms=ms, rs=rs, mp=mp)):
                    c.fails[-1]["chain"] = ["+".join(x) for x in path]
            n += 1
            for k in range(0, len(P), 8):
                c.state((tuple(path), k))
            if depth + 1 < cell["depth"]:
                for sub in LEGAL:
                    if enabled(sub) and sub != last:
                        c.step()
                        nxt.append((sub, build(sub, attrs), path + [sub]))
        frontier = nxt
        c.outcome(f"depth {depth}", n)
    c.trace(n)
    c.step()
    c.sample(first=first, chains=n)
