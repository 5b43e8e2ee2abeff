import itertools

import numpy as np

from mc.core import product
from mc.env import ev
from mc.orb import SYSTEMS, KeplerianOrbit, Spec, orbit_lattice

RULE = ("cell = (how omega, the inclination and the epoch are given, node given or not, system); model state = (elements, "
        "reference event); transition = moving between transits and periastron passages, or rebuilding the orbit from its own "
        "attributes in every other form; trace = one orbit's reference events replayed on the implementation")
BOUNDS = "all 3x3x3x2 forms x 5 systems, e in {0..0.98(0.999)}, transits at n in {-1000,-3,0,1,250}, all re-specification forms, all illegal pairs"
ASSUMPTIONS = ["inclination recovered from b to 1e-7 (arccos conditioning)"]


def cells(tier):
    out = product(kind=["geometry"], ecc=["none", "omega", "sincos"], incl=["incl", "b", "none"], epoch=["t0", "t_periastron", "none"],
                  Omega=[True, False], sys=[0, 1, 2, 3, 4], deep=[tier == "thorough"])
    out += [dict(kind="illegal", n=n) for n in range(len(ILLEGAL))]
    out += product(kind=["default"], ecc=[True, False])
    return out


V = dict(t0=0.3, t_periastron=0.1, incl=1.5, b=0.2, ecc=0.3, omega=0.4, sin_omega=np.sin(0.4), cos_omega=np.cos(0.4), duration=0.1)
ILLEGAL = [("t0", "t_periastron"), ("t0", "t_periastron", "ecc", "omega"), ("incl", "b"), ("incl", "b", "ecc", "omega"), ("ecc",),
           ("ecc", "sin_omega"), ("ecc", "cos_omega"), ("ecc", "omega", "sin_omega", "cos_omega"), ("ecc", "omega", "duration", "b"),
           ("ecc", "omega", "duration", "incl"), ("ecc", "omega", "incl", "b", "t0"), ("ecc", "t0", "b"), ("t0", "t_periastron", "b"),
           ("ecc", "omega", "duration", "incl", "b")]


def run(c, cell):
    if cell["kind"] == "illegal":
        names = ILLEGAL[cell["n"]]
        for extra in ({}, dict(m_star=1.2, r_star=0.9), dict(m_planet=0.1)):
            for vec in (False, True):
                kw = {k: (np.array([V[k], V[k]]) if vec else V[k]) for k in names}
                c.state((names, tuple(extra), vec))
                c.step()
                c.trace()
                if c.raises(ValueError, "illegal: " + "+".join(names), KeplerianOrbit, period=3.0, **kw, **extra):
                    c.outcome("ValueError")
        return
    if cell["kind"] == "default":
        kw = dict(ecc=np.array([0.0, 0.4]), omega=np.array([0.3, -2.0])) if cell["ecc"] else {}
        P = np.array([3.0, 5.0])
        o = KeplerianOrbit(period=P, **kw)
        t0 = np.zeros(2)
        x, y, z = ev(list(o.get_relative_position(np.array([-10.0, 0.0, 3.0]))))
        b, inc, ci, si, t00 = ev([o.b, o.incl, o.cos_incl, o.sin_incl, o.t0])
        c.state(cell)
        c.step()
        c.trace()
        c.outcome("default")
        c.close("default b", b, np.zeros(2), 1e-14)
        c.close("default incl", inc, np.full(2, np.pi / 2), 1e-15)
        c.close("default cos_incl", ci, np.zeros(2), 1e-15)
        c.close("default sin_incl", si, np.ones(2), 1e-15)
        c.close("default t0", t00, t0, 1e-14)
        c.close("transit at t=0: sky position", np.hypot(x[1], y[1]), np.zeros(2), 1e-7)
        c.expect(bool(np.all(z[1] > 0)), "transit at t=0 is in front", z=z[1])
        return
    deep, circ = cell["deep"], cell["ecc"] == "none"
    P, t0, ms, mp, rs = SYSTEMS[cell["sys"]]
    e, w, inc, W = orbit_lattice(deep, circ, cell["Omega"])
    inc = np.where(inc == 0, 0.02, inc)  # an orbit exactly face-on cannot be recovered from b in floating point
    step = 1 if circ else (13 if deep else 5)  # coprime with every axis: all values of each axis and most pairs
    e, w, inc, W = e[::step], w[::step], inc[::step], W[::step]
    if cell["incl"] == "none":
        inc = np.full_like(inc, np.pi / 2)
    if cell["epoch"] == "none":
        t0 = 0.0
    s = Spec(P, e, w, inc, W, t0, ms, mp, rs)
    o = s.build(par=("period", "m_star", "r_star"), ecc=not circ, omega=cell["ecc"], Omega=cell["Omega"], incl=cell["incl"],
                epoch=None if cell["epoch"] == "none" else cell["epoch"])
    at = dict(e=e, w=w, inc=inc, W=W)
    names = ["t0", "t_periastron", "incl", "b", "cos_incl", "sin_incl", "tref", "dcosidb", "M0"]
    g = dict(zip(names, [np.broadcast_to(x, e.shape) for x in ev([getattr(o, k) for k in names])]))
    loose = 1e-7 if cell["incl"] == "b" else 0.0
    ph = lambda d: d / P - np.round(d / P)  # noqa: E731
    terr = 1e-8 + 1e-15 * abs(t0) / P
    c.close("t0 attribute (modulo the period)", ph(g["t0"] - t0), np.zeros_like(e), terr, at)
    if not circ:
        c.close("t_periastron attribute (modulo the period)", ph(g["t_periastron"] - s.tp), np.zeros_like(e), terr + 1e-7 * (e > 0.9), at)
    if cell["epoch"] == "t0":
        c.close("t0 unchanged", g["t0"], np.full_like(e, t0), 1e-14 + 1e-15 * abs(t0))
    if cell["epoch"] == "t_periastron" and not circ:
        c.close("t_periastron unchanged", g["t_periastron"], s.tp, 1e-14 + 1e-15 * np.abs(s.tp))
    c.close("tref", g["tref"], g["t_periastron"] - g["t0"], 1e-12 * P + 1e-15 * (np.abs(g["t_periastron"]) + np.abs(g["t0"])), at)
    c.close("b attribute", g["b"], s.b, 1e-8 * s.a / s.rs + 1e-8 * np.abs(s.b), at)
    c.close("cos_incl attribute", g["cos_incl"], s.cosi, 1e-9, at)
    c.close("incl attribute", g["incl"], np.broadcast_to(inc, e.shape), 1e-9 + loose, at)
    c.close("sin_incl attribute", g["sin_incl"], s.sini, 1e-9 + loose, at)
    c.close("d cos(incl) / db", g["dcosidb"] * s.rc, s.rs + 0 * e, 1e-9 * s.rs, at)
    k = np.array([-1000, -3, 0, 1, 250.0])[:, None]
    tt = g["t0"] + P * k
    tpv = g["t_periastron"] + P * k
    # per-planet times: evaluate all planets at all times and keep the diagonal
    pos_t = diag(o, tt)
    pos_p = diag(o, tpv)
    c.lattice(e[:, None], w[:, None], inc[:, None], W[:, None], np.concatenate([k, k + 0.5])[:, 0][None, :])
    tol = s.ref.tol(tt) + 1e-7 * s.a * (cell["incl"] == "b")
    d = np.hypot(pos_t[0], pos_t[1])
    c.close("sky distance at t0", d, np.broadcast_to(np.abs(s.b) * s.rs, d.shape), tol, dict(at, k=k))
    front = s.sini > 1e-6
    c.expect(bool(np.all(pos_t[2][:, front] > 0)), "planet is behind the star at t0")
    c.close("line of sight at t0", pos_t[2], np.broadcast_to(s.rc * s.sini, d.shape), tol, at)
    r = np.sqrt(np.sum(pos_p**2, 0))
    want = s.a * (1 - e)
    q = 1 - e
    n = 2 * np.pi / P
    # the distance is stationary at periastron: second order in the timing error
    dM = (np.abs(tpv) + np.abs(g["t0"]) + P * np.abs(k)) * n * 2.2e-16 * 30 + 1e-9
    if circ:
        c.close("orbit radius", r, np.broadcast_to(want, r.shape), 1e-9 * s.a)
    else:
        c.close("distance at t_periastron", r, np.broadcast_to(want, r.shape), s.a * (1e-9 + e * dM**2 / q**2 + dM * 1e-3 / q), dict(at, k=k))
    # rebuilding from its own attributes, in every form
    times = t0 + P * np.array([-2.3, 0.01, 0.37, 0.5, 11.9])
    base = np.stack(ev(list(o.get_relative_position(times))))
    tolr = s.ref.tol(times[:, None]) * 3
    forms = list(itertools.product(("t0", "t_periastron"), ("incl", "b"), ("omega", "sincos")[: 1 if circ else 2]))
    for ep, ic, om in forms:
        kw = dict(period=o.period, m_star=o.m_star, r_star=o.r_star, m_planet=o.m_planet)
        kw[ep], kw[ic] = getattr(o, ep), getattr(o, ic)
        if cell["Omega"]:
            kw["Omega"] = o.Omega
        if not circ:
            kw["ecc"] = o.ecc
            kw.update(dict(omega=o.omega) if om == "omega" else dict(sin_omega=o.sin_omega, cos_omega=o.cos_omega))
        o2 = KeplerianOrbit(**kw)
        x2 = np.stack(ev(list(o2.get_relative_position(times))))
        c.close(f"orbit rebuilt from its own {ep}, {ic}, {om}", x2, base, np.broadcast_to(tolr, base.shape) + 1e-7 * s.a, at)
        c.step(len(e))
        c.trace(len(e))
        c.outcome("rebuilt", len(e))
    c.sample(e=e[-1], w=w[-1], b=g["b"][-1], t0=g["t0"][-1], tp=g["t_periastron"][-1])


def diag(o, tt):
    """Positions of planet j at tt[:, j]: all planets at all these times, then the diagonal."""
    m, n = tt.shape
    x = ev(list(o.get_relative_position(tt.ravel())))
    return np.stack([np.diagonal(v.reshape(m, n, n), axis1=1, axis2=2) for v in x])
