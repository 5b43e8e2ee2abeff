import numpy as np

from mc.core import product
from mc.env import ev
from mc.orb import KeplerianOrbit, Spec, orbit_lattice, phases

RULE = ("cell = (eccentricity form, epoch form, inclination form, node, mass ratio, parametrization); the state machine has two states, "
        "original and exchanged, and the transition is the exchange; it is applied 1..4 times and at each state every trajectory of every "
        "body is replayed and compared with the original's")
BOUNDS = "e in {0..0.98(0.999)} x omega x inclination x node x 24-60 phases up to 30000 periods away; mass ratios 0, 1e-3, 0.4, 1, 2.5; 1..4 exchanges"


def cells(tier):
    d = tier == "thorough"
    return product(ecc=["none", "omega", "sincos"], epoch=["t0", "t_periastron"], incl=["incl", "b"], Omega=[True, False], q=[0.0, 1e-3, 0.4, 1.0, 2.5],
                   deep=[d])


def run(c, cell):
    deep, circ = cell["deep"], cell["ecc"] == "none"
    e, w, inc, W = orbit_lattice(deep, circ, cell["Omega"])
    inc = np.where(inc == 0, 0.02, inc)
    if not circ and not deep:
        e, w, inc, W = [x[::5] for x in (e, w, inc, W)]
    P, t0, ms, rs, r = 5.3, 11.2, 0.9, 1.2, 0.35
    s = Spec(P, e, w, inc, W, t0, ms, cell["q"] * ms, rs)
    o = s.build(ecc=not circ, omega=cell["ecc"], epoch=cell["epoch"], incl=cell["incl"], Omega=cell["Omega"])
    ph = phases(deep, extra=(-20.3, 1.0, 7.55, 20000.3, -30000.6))
    t = t0 + P * ph
    at = dict(e=e, w=w, inc=inc, W=W, t=t[:, None])
    shape = (3, len(t), len(e))

    def obs(x):
        out = ev([list(f(t)) for f in (x.get_planet_position, x.get_star_position, x.get_relative_position, x.get_planet_velocity,
                                       x.get_star_velocity, x.get_relative_velocity)])
        return [np.stack(v) for v in out]

    base = obs(o)
    tolp = 1e-8 * s.a / (1 - e) + s.ref.tol(t[:, None])
    tolv = s.ref.tol(t[:, None], order=1)
    cur, sizes = o, [rs]
    for n in range(1, 5):
        cur = cur._flip(r if n % 2 else rs)
        c.state((n % 2, cell["q"]))
        c.step()
        pp, sp, rp, pv, sv, rv = obs(cur)
        want = base if n % 2 == 0 else [base[1], base[0], -base[2], base[4], base[3], -base[5]]
        lab = f" after {n} exchange(s)"
        for name, g, x, tol in zip(("planet position", "star position", "relative position", "planet velocity", "star velocity", "relative velocity"),
                                   (pp, sp, rp, pv, sv, rv), want, (tolp,) * 3 + (tolv,) * 3):
            c.close(name + lab, g, x, np.broadcast_to(tol * n, shape), at)
        g = ev([cur.r_star, cur.m_star, cur.m_planet, cur.period, cur.a])
        big, small = (s.ms, s.mp) if n % 2 == 0 else (s.mp, s.ms)
        c.close("r_star" + lab, np.broadcast_to(g[0], e.shape), np.full(e.shape, r if n % 2 else rs), 1e-14)
        c.close("m_star" + lab, np.broadcast_to(g[1], e.shape), big, 1e-12)
        c.close("m_planet" + lab, np.broadcast_to(g[2], e.shape), small, 1e-12)
        c.close("period" + lab, np.broadcast_to(g[3], e.shape), s.P, 1e-12)
        c.close("a" + lab, np.broadcast_to(g[4], e.shape), s.a, 1e-11 * s.a)
        c.outcome("exchanged" if n % 2 else "original", len(e))
        if n == 1:
            # mid eclipse of one body is the time half way around for the other
            c.expect(bool(np.all((rp[2] > 0) == (base[2] < 0)) or np.any(np.abs(base[2]) < 1e-6)), "front and back are not exchanged")
    c.lattice(e[:, None], w[:, None], inc[:, None], W[:, None], ph[None, :])
    c.sample(e=e[-1], w=w[-1], q=cell["q"])
