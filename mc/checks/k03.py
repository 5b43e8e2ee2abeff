import numpy as np
from astropy import units as u

from exoplanet.units import with_unit
from mc.core import product
from mc.env import ev
from mc.orb import KeplerianOrbit, TTVOrbit, orbit_lattice, phases, semi_major

RULE = ("cell = (eccentricity form, mass given as number/quantity, orbit class, stellar mass); model state = (mass ratio, elements, "
        "phase); transition = advancing the phase; trace = one planet's barycentric motion replayed on the position, velocity and "
        "acceleration methods of both bodies")
BOUNDS = "6 mass ratios 0..3, e in {0..0.98} x omega x inclination x node, 24-60 phases up to 400000 periods away, plain and TTV orbits, parallax on/off"
ASSUMPTIONS = ["identities hold to 1e-12 of the orbit size (rounding only)"]


def cells(tier):
    return product(ecc=[False, True], unit=["", "Msun", "Mearth", "kg"], cls=["kep", "ttv"], parallax=[None, 0.0243],
                   ms=[1.0, 0.3], deep=[tier == "thorough"])


def run(c, cell):
    deep, circ = cell["deep"], not cell["ecc"]
    ms, P, t0 = cell["ms"], 7.3, 2.1
    e, w, inc, W = orbit_lattice(deep, circ)
    keep = slice(None) if deep or circ else slice(None, None, 3)
    e, w, inc, W = e[keep], w[keep], inc[keep], W[keep]
    if cell["cls"] == "ttv":  # one graph per planet: a sub-lattice
        sub = np.linspace(0, len(e) - 1, 6 if deep else 3).astype(int)
        e, w, inc, W = e[sub], w[sub], inc[sub], W[sub]
    q = np.array([0.0, 1e-6, 1e-3, 0.3, 1.0, 3.0])
    n = len(e)
    e, w, inc, W = [np.tile(x, len(q)) for x in (e, w, inc, W)]
    mp = np.repeat(q, n) * ms
    kw = dict(period=np.full(len(mp), P), t0=np.full(len(mp), t0), m_star=ms, r_star=0.9, incl=inc, Omega=W)
    if not circ:
        kw.update(ecc=e, omega=w)
    unit = dict(Msun=u.M_sun, Mearth=u.M_earth, kg=u.kg).get(cell["unit"])
    kw["m_planet"] = mp if unit is None else with_unit((mp * u.M_sun).to(unit).value, unit)
    if cell["cls"] == "ttv":
        kw["ttvs"] = [np.array([0.0, 0.02, -0.03])] * len(mp)
        o = TTVOrbit(**kw)
    else:
        o = KeplerianOrbit(**kw)
    ph = phases(deep) if cell["cls"] == "kep" else np.linspace(-0.7, 2.9, 24)
    t = t0 + P * ph
    pl = cell["parallax"]
    out = ev([list(o.get_star_position(t, parallax=pl)), list(o.get_planet_position(t, parallax=pl)),
              list(o.get_relative_position(t, parallax=pl)),
              list(o.get_star_velocity(t)), list(o.get_planet_velocity(t)), list(o.get_relative_velocity(t)),
              list(o.get_star_acceleration(t)), list(o.get_planet_acceleration(t)), list(o.get_relative_acceleration(t))])
    c.lattice(mp[:, None], e[:, None], w[:, None], inc[:, None], W[:, None], ph[None, :])
    at = dict(e=e, w=w, inc=inc, mp=mp, t=t[:, None])
    a = semi_major(P, ms + mp)
    scale = a * (1 if pl is None else pl * 0.00465047)
    nn = 2 * np.pi / P
    for i, (name, amp) in enumerate((("position", scale * 2), ("velocity", a * nn / (1 - e) * 2),
                                     ("acceleration", a * nn**2 / (1 - e) ** 2))):
        star, planet, rel = [np.stack(x) for x in out[3 * i:3 * i + 3]]
        shape = (3, len(t), len(mp))
        c.expect(star.shape == planet.shape == rel.shape == shape, name + " shape", got=star.shape, want=shape)
        tol = 1e-11 * amp * (ms + mp)
        c.close("barycenter of the " + name, ms * star + mp * planet, np.zeros(shape), tol, at)
        c.close("planet minus star " + name, planet - star, rel, tol, at)
        c.close("massless planet: star " + name, star[:, :, mp == 0], np.zeros((3, len(t), n)), 0.0)
        c.expect(bool(np.all(np.abs(rel).max(axis=0) > 0)), name + " vanishes")
        # the planet is on the same side as the relative vector, the star on the other
        c.close("planet share of the " + name, planet, rel * ms / (ms + mp), tol / ms + tol, at)
    c.outcome("massless", n)
    c.outcome("heavier than the star", n * np.sum(q > 1))
    c.sample(mp=mp[-1], e=e[-1], star=star[:, 2, -1], planet=planet[:, 2, -1])
