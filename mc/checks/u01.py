import itertools
import warnings

import numpy as np
from astropy import units as u

from mc.core import product
from mc.env import ev, pt, xo
from mc.orb import KeplerianOrbit, TTVOrbit
from mc.ref import AU, DAY, GCC, M_SUN, R_SUN

RULE = ("cell = (legal parameter combination, eccentric or not, inclination form, shape); model state = the unit attached to each unit-aware "
        "parameter (or none); transition = changing the unit of one parameter; trace = an orbit built with that assignment of units, "
        "compared in every attribute and along a trajectory with the orbit built from hand-converted values")
BOUNDS = ("every subset of the unit-aware parameters of 12 legal combinations with units, and every unit of each parameter alone (thorough: all "
          "assignments of all units), x {circular, eccentric} x {b, incl, duration} "
          "x {scalar, vector}; deprecated keywords; conversions over all pairs of 20 units")
M_JUP, M_EARTH, R_JUP, R_EARTH = 1.8981245973360505e27, 5.972167867791379e24, 71492000.0, 6378100.0
# value of one unit in the default unit
TIME = {None: 1.0, "day": 1.0, "hour": 1 / 24, "yr": 365.25, "s": 1 / DAY}
LEN = {None: 1.0, "R_sun": 1.0, "AU": AU / R_SUN, "km": 1e3 / R_SUN, "R_jup": R_JUP / R_SUN, "R_earth": R_EARTH / R_SUN}
MASS = {None: 1.0, "M_sun": 1.0, "M_jup": M_JUP / M_SUN, "M_earth": M_EARTH / M_SUN, "kg": 1 / M_SUN}
RHO = {None: 1.0, "g/cm3": 1.0, "kg/m3": 1e-3, "Msun/Rsun3": GCC}
UN = {"day": u.day, "hour": u.hour, "yr": u.yr, "s": u.s, "R_sun": u.R_sun, "AU": u.AU, "km": u.km, "R_jup": u.R_jup, "R_earth": u.R_earth,
      "M_sun": u.M_sun, "M_jup": u.M_jup, "M_earth": u.M_earth, "kg": u.kg, "g/cm3": u.g / u.cm**3, "kg/m3": u.kg / u.m**3,
      "Msun/Rsun3": u.M_sun / u.R_sun**3}
UNITS = dict(period=TIME, duration=TIME, a=LEN, r_star=LEN, m_star=MASS, m_planet=MASS, rho_star=RHO)
QUICK = dict(period=[None, "hour", "yr"], duration=[None, "hour", "s"], a=[None, "AU", "km"], r_star=[None, "R_jup", "km"],
             m_star=[None, "M_jup", "kg"], m_planet=[None, "M_earth", "M_sun", "kg"], rho_star=[None, "kg/m3", "Msun/Rsun3", "g/cm3"])
COMBOS = [("period",), ("period", "rho_star"), ("period", "m_star", "r_star"), ("period", "m_star", "rho_star"), ("period", "r_star", "rho_star"),
          ("a",), ("a", "rho_star"), ("a", "m_star", "r_star"), ("a", "m_star", "rho_star"),
          ("a", "r_star", "rho_star"), ("period", "a"), ("period", "a", "r_star")]
VALUES = dict(period=[3.7, 12.0], a=[9.0, 21.0], r_star=[0.8, 0.8], m_star=[1.3, 1.3], m_planet=[0.01, 0.2], rho_star=[1.9, 1.9], duration=[0.06, 0.09])


def cells(tier):
    d = tier == "thorough"
    out = []
    for combo in COMBOS:
        for mp in ([False, True] if "m_star" in combo or d else [True]):
            out += product(kind=["orbit"], combo=[list(combo)], mp=[mp], ecc=[False, True], pos=["b", "incl"], vec=[False, True], deep=[d])
            if combo[0] == "period" and "m_star" not in combo and "rho_star" not in combo or combo == ("period", "m_star", "r_star"):
                out += product(kind=["orbit"], combo=[list(combo)], mp=[mp], ecc=[True], pos=["duration"], vec=[False, True], deep=[d])
    out += product(kind=["orbit"], combo=[["period"], ["period", "r_star"]], mp=[False, True], ecc=[False], pos=["duration"], vec=[False, True], deep=[d])
    out += product(kind=["deprecated"], combo=[["period", "rho_star"], ["period", "r_star", "rho_star"], ["a", "rho_star"]])
    out += product(kind=["ttv"], ecc=[False, True])
    out += product(kind=["convert"], value=["float", "int", "list", "numpy", "tensor", "symbolic"])
    return out


T = np.array([0.0, 0.3, 1.7, -40.2, 2.2])
ATTRS = ("period", "a", "r_star", "rho_star", "m_star", "m_planet", "b", "cos_incl", "n", "a_planet", "a_star", "K0")


def observe(o):
    out = [getattr(o, k) for k in ATTRS]
    out += list(o.get_relative_position(T)) + list(o.get_star_position(T)) + [o.get_radial_velocity(T)]
    return out


def same(c, lab, got, want, pre=""):
    for n, g, w in zip(ATTRS + ("x", "y", "z", "xs", "ys", "zs", "rv"), got, want):
        if not c.close(pre + n, g, w, 3e-9 * (np.max(np.abs(w)) + 1e-300), dict(units=lab)):
            return


def orbit(cls, combo, cell, val, units=None):
    kw = {}
    for k, v in val.items():
        kw[k] = v
        if units and units.get(k):
            kw[k] = xo.units.with_unit(np.asarray(v) / UNITS[k][units[k]], UN[units[k]])
    if cell.get("ecc"):
        kw["ecc"], kw["omega"] = 0.2, 0.7
    pos = cell.get("pos", "b")
    if pos in ("b", "duration") and not (pos == "duration" and cell["ecc"]):
        kw["b"] = 0.3
    if pos == "incl":
        kw["incl"] = 1.5
    if pos == "duration":
        kw["ror"] = 0.05
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(t0=0.4, **kw)


def run(c, cell):
    if cell["kind"] == "convert":
        return convert(c, cell)
    if cell["kind"] == "deprecated":
        return deprecated(c, cell)
    if cell["kind"] == "ttv":
        return ttv(c, cell)
    combo = list(cell["combo"])
    names = combo + (["m_planet"] if cell["mp"] else []) + (["duration"] if cell["pos"] == "duration" else [])
    val = {k: (np.array(VALUES[k]) if cell["vec"] and k in ("period", "a", "m_planet", "duration") else VALUES[k][0]) for k in names}
    want = ev(observe(orbit(KeplerianOrbit, combo, cell, val)))
    c.expect(np.all([np.all(np.isfinite(w)) for w in want]), "the reference orbit is finite")
    if cell["deep"]:
        runs = list(itertools.product(*[UNITS[k] if len(names) < 4 else QUICK[k] for k in names]))
    else:
        # every set of parameters with a unit; every unit of every parameter alone
        runs = list(itertools.product(*[(None, QUICK[k][-1]) for k in names]))
        runs += [tuple(x if k == q else None for q in names) for k in names for x in UNITS[k] if x not in (None, QUICK[k][-1])]
    prev = None
    for a in runs:
        units = dict(zip(names, a))
        o = orbit(KeplerianOrbit, combo, cell, val, units)
        same(c, units, ev(observe(o)), want)
        c.state(a)
        c.step(1 if prev is None else sum(x != y for x, y in zip(a, prev)))
        prev = a
        c.trace()
        c.outcome(f"{sum(x is not None for x in a)} units attached")
    c.sample(combo=combo, units=units, period=want[0])


def deprecated(c, cell):
    for ru in RHO:
        for mu in MASS:
            kw = {k: VALUES[k][0] for k in cell["combo"]}
            dep = {}
            if ru:
                kw["rho_star"] /= RHO[ru]
                dep["rho_star_units"] = UN[ru]
            kw["m_planet"] = VALUES["m_planet"][0]
            if mu:
                kw["m_planet"] /= MASS[mu]
                dep["m_planet_units"] = UN[mu]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                o = KeplerianOrbit(t0=0.4, b=0.3, **kw, **dep)
            n = sum(issubclass(x.category, DeprecationWarning) and "_units" in str(x.message) for x in w)
            c.expect(n == len(dep), "one deprecation warning per deprecated keyword", got=n, want=len(dep))
            want = orbit(KeplerianOrbit, cell["combo"], dict(ecc=False), {**{k: VALUES[k][0] for k in cell["combo"]}, "m_planet": VALUES["m_planet"][0]})
            same(c, dict(rho=ru, m=mu), ev(observe(o)), ev(observe(want)), "deprecated units: ")
            c.state((ru, mu))
            c.step()
            c.trace()
            c.outcome(f"{len(dep)} deprecated keywords")
    for k, un in (("m_planet", u.kg), ("rho_star", u.g / u.cm**3)):
        kw = dict(period=3.0, rho_star=1.0, m_planet=0.1)
        kw[k] = xo.units.with_unit(kw[k], un)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.raises(TypeError, f"{k} with both a unit and a deprecated unit keyword", KeplerianOrbit, **kw, **{k + "_units": un})
    c.sample(combo=cell["combo"])


def ttv(c, cell):
    ttvs = [[0.0, 0.1, -0.1], [0.2, 0.0]]
    val = dict(period=np.array(VALUES["period"]), m_star=1.3, r_star=0.8, m_planet=np.array(VALUES["m_planet"]))
    ec = dict(ecc=np.array([0.2, 0.4]), omega=np.array([0.7, -1.0])) if cell["ecc"] else {}

    def build(units):
        kw = {k: (xo.units.with_unit(np.asarray(v) / UNITS[k][units[k]], UN[units[k]]) if units.get(k) else v) for k, v in val.items()}
        return TTVOrbit(t0=np.array([0.4, 1.0]), b=np.array([0.3, 0.1]), ttvs=ttvs, **ec, **kw)

    want = ev(observe(build({})))
    for pu, mu, ru, qu in itertools.product(["hour", None, "s"], ["kg", None], ["AU", None], ["M_jup", None]):
        units = dict(period=pu, m_star=mu, r_star=ru, m_planet=qu)
        same(c, units, ev(observe(build(units))), want, "TTV: ")
        c.state((pu, mu, ru, qu))
        c.step()
        c.trace()
        c.outcome("ttv")
    c.sample(period=want[0])


def convert(c, cell):
    wu, tu, hu = xo.units.with_unit, xo.units.to_unit, xo.units.has_unit
    groups = [TIME, LEN, MASS, RHO]
    raw = dict(float=2.5, int=3, list=[1.0, -2.0], numpy=np.array([[1.0, 2.0], [0.0, 1e9]]), tensor=4.25, symbolic=np.array([1.5, -1e-9]))[cell["value"]]
    num = np.asarray(raw, dtype=float)

    def make():
        if cell["value"] == "tensor":
            return pt.as_tensor_variable(raw), (), ()
        if cell["value"] == "symbolic":
            v = pt.dvector()
            return v, (v,), (raw,)
        return raw, (), ()

    for g in groups:
        for a in g:
            x, inp, val = make()
            if a is None:
                for b in g:
                    if b:
                        c.expect(not hu(x), "a plain value has no unit")
                        c.expect(tu(x, UN[b]) is x, "a value without a unit is passed through untouched")
                        c.state(("plain", b))
                        c.step()
                continue
            q = wu(x, UN[a])
            c.expect(hu(q), "a value given a unit has a unit")
            c.close("attaching a unit keeps the value", ev(q, inp, val), num, 0)
            for b in g:
                if b:
                    out = ev(tu(q, UN[b]), inp, val)
                    w = num * g[a] / g[b]
                    c.close(f"{a} to {b}", out, w, 1e-12 * np.abs(w))
                    c.state((a, b))
                    c.step()
            for b in g:
                if b:
                    c.raises(TypeError, "attaching a second unit", wu, q, UN[b])
            c.close("the value after a rejected unit", ev(tu(q, UN[a]), inp, val), num, 1e-12 * np.abs(num))
            other = groups[(groups.index(g) + 1) % 4]
            c.raises(u.UnitsError, "an incompatible unit", tu, q, UN[[k for k in other if k][0]])
            c.trace()
            c.outcome("conversion", len(g) - 1)
    c.sample(value=raw)
