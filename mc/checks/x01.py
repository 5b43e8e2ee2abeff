import itertools
import warnings

import astropy.units as u
import numpy as np
import pymc as pm

from mc.core import product
from mc.env import ev, fn, pt, pytensor, xo
from exoplanet.units import has_unit, to_unit, with_unit
from mc.orb import KeplerianOrbit, SimpleTransitOrbit, TTVOrbit
from mc.ref import G, t_peri_from_t0
from mc.checks.k04 import legal as legal_star, star_for, system

NAMES = ("period", "a", "m_star", "r_star", "rho_star", "ecc", "omega", "sin_omega", "cos_omega", "incl", "b", "duration", "ror", "t0", "t_periastron")
RULE = ("kind=orbit: model state = set of the constructor's arguments that are given; every one of the 2^15 sets is given to the constructor: those the documented rules "
        "forbid must be refused, all others must be served with every argument honoured and every other attribute derived from them. kind=units: state = history of "
        "unit operations on one object. kind=call/alias: state = set of arguments of a light curve, an unsupported combination, or a deprecated spelling. transition = adding or "
        "removing one argument, or one operation; trace = one request made to the implementation")
BOUNDS = ("all 2^15 sets of {period, a, m_star, r_star, rho_star, ecc, omega, sin_omega, cos_omega, incl, b, duration, ror, t0, t_periastron} (thorough: as vectors, as scalars, and with units attached); all histories of 4 unit operations on 6 kinds "
          "of objects; all sets of light-curve arguments x order -1..3; all 2^7 sets of {ttvs, transit_times, transit_inds, period, a, t0, delta_log_period}; every light-delay and velocity request on 4 kinds of orbits; 7 shapes of a limb-darkening vector, known in advance or not; 7 deprecated spellings")
ASSUMPTIONS = ["any exception counts as a refusal", "a circular orbit with a duration ignores a, and without ecc the arguments of periastron are ignored, as documented"]


def cells(tier):
    out = product(kind=["orbit"], low=list(range(32)), ecc=[False, True], form=["vector", "scalar", "units"] if tier == "thorough" else ["vector"])
    out += product(kind=["units"], obj=["float", "array", "symbol", "shared", "derived", "int"])
    out += product(kind=["call"], orbit=["kepler", "ecc", "ttv", "simple"])
    out += product(kind=["timing"], ecc=[False, True], form=["lists", "symbols"] if tier == "thorough" else ["lists"])
    out += product(kind=["vector"], known=[True, False])
    out += product(kind=["alias"], name=["m_planet_units", "rho_star_units", "vector", "ImpactParameter", "QuadLimbDark", "estimators"])
    return [dict(x, tier=tier) for x in out]


def run(c, cell):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dict(orbit=orbit, units=units, call=call, timing=timing, vector=vector, alias=alias)[cell["kind"]](c, cell)


# -- the constructor ---------------------------------------------------------------------------------------------
def forbidden(s):
    """The documented rules; returns the first one the set breaks."""
    if "t0" in s and "t_periastron" in s:
        return "both t0 and t_periastron"
    if len(s & {"incl", "b", "duration"} - ({"duration"} if "ecc" not in s and "b" in s else set())) > 1:
        return "more than one of incl, b, duration"
    if "ecc" in s:
        vec = {"sin_omega", "cos_omega"} <= s
        if "omega" in s and vec:
            return "omega twice"
        if not ("omega" in s or vec):
            return "ecc without omega"
        star = s
    else:
        star = s
        if "duration" in s:
            if "b" not in s:
                return "circular duration without b"
            if "period" not in s:
                return "circular duration without period"
            star = s | {"a", "r_star"}
    if not legal_star([k for k in NAMES[:5] if k in star]):
        return "stellar parameters"


P, E, W, B, MP, K = np.array([3.456, 21.3]), np.array([0.3, 0.55]), np.array([0.7, -2.2]), np.array([0.31, 0.12]), np.array([0.0, 0.02]), np.array([0.1, 0.05])
MS, RS = np.array(0.9), np.array(0.8)
T0 = np.array([1.25, -3.5])


def orbit(c, cell):
    for bits in itertools.product([0, 1], repeat=9):
        s = {k for i, k in enumerate(NAMES[:5]) if cell["low"] >> i & 1} | ({"ecc"} if cell["ecc"] else set()) | {k for k, x in zip(NAMES[6:], bits) if x}
        why = forbidden(s)
        c.state(tuple(sorted(s)))
        c.step()
        c.trace()
        kw, want = model(s)
        if cell["form"] == "scalar":
            kw = {k: np.ravel(x)[-1] for k, x in kw.items()}
            want = {k: np.ravel(x)[-1] for k, x in want.items()}
        elif cell["form"] == "units":
            kw = {k: with_unit(x * FORM[k][1], FORM[k][0]) if k in FORM else x for k, x in kw.items()}
        zero = 0 * np.asarray(kw["m_planet"]) if cell["form"] != "units" else 0 * T0
        if why is not None:
            try:
                KeplerianOrbit(**kw)
            except Exception:
                c.outcome(why)
                continue
            c.expect(False, "refused: " + why, given=sorted(s))
            continue
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            o = KeplerianOrbit(**kw)
        if "duration" in s and "ecc" not in s:
            c.expect(("ror" in s) or any(issubclass(x.category, UserWarning) and not issubclass(x.category, DeprecationWarning) for x in seen),
                     "a warning that the radius ratio is missing", given=sorted(s))
        c.expect(not any(issubclass(x.category, DeprecationWarning) for x in seen if "exoplanet" in str(x.filename)), "no deprecation warning", given=sorted(s))
        got = ev([pt.as_tensor_variable(getattr(o, k)) + zero for k in want])
        for k, g in zip(want, got):
            c.close(k, g, want[k] + zero, 1e-9 * (1 + np.abs(want[k])), coords=dict(given="+".join(sorted(s))))
        c.expect((o.ecc is None) == ("ecc" not in s), "circular exactly when no eccentricity is given", given=sorted(s))
        c.outcome("served")
    c.sample(given=sorted(s))


FORM = dict(period=(u.hour, 24.0), duration=(u.minute, 1440.0), a=(u.AU, u.R_sun.to(u.AU)), m_star=(u.kg, u.M_sun.to(u.kg)), r_star=(u.km, u.R_sun.to(u.km)),
            rho_star=(u.kg / u.m**3, 1000.0), m_planet=(u.M_earth, u.M_sun.to(u.M_earth)))


def model(s):
    """The arguments for the set and the attributes of the system they describe."""
    e, w = (E, W) if "ecc" in s else (np.zeros(2), np.zeros(2))
    circ_dur = "duration" in s and "ecc" not in s
    star = [k for k in NAMES[:5] if k in s | ({"a", "r_star"} if circ_dur else set())]
    ms, rs = star_for(tuple(star), MS, RS) if legal_star(star) else (MS, RS)
    if circ_dur and "r_star" not in s:
        rs = np.ones(())
    y = system(P, ms + 0 * P, rs + 0 * P, MP)
    k = K if "ror" in s else np.zeros(2)
    dur = None
    if circ_dur:
        # a duration of its own: 'a' and the stellar mass follow from it
        dur = np.array([0.11, 0.19])
        ph = np.pi * dur / P
        a = rs * np.sqrt((1 + k) ** 2 - B**2 * np.cos(ph) ** 2) / np.sin(ph)
        y = system(P, 4 * np.pi**2 * a**3 / (G * P**2) - MP, rs + 0 * P, MP)
    g = (1 + e * np.sin(w)) / (1 - e**2)
    aor = y["a"] / y["r_star"]
    b = B if s & {"b", "incl", "duration"} else np.zeros(2)
    ci = g * b / aor
    if "ecc" in s:
        # sin(pi D f / P) = sqrt(((1 + k)^2 - b^2) / (a/R)^2 / sin(i)^2), f = (1 + e sin w) / sqrt(1 - e^2)
        dur = np.arcsin(np.sqrt(((1 + k) ** 2 - B**2) / (1 - (g * B / aor) ** 2)) / aor) * P / np.pi * np.sqrt(1 - e**2) / (1 + e * np.sin(w))
    tp = t_peri_from_t0(T0, P, e, w) if "ecc" in s else T0 - 0.25 * P
    if dur is None:
        dur = np.array([0.11, 0.19])
    t0 = T0
    if not s & {"t0", "t_periastron"}:
        t0, tp = np.zeros(2), tp - T0
    allv = dict(period=P, a=y["a"], m_star=y["m_star"], r_star=y["r_star"], rho_star=y["rho_star"], ecc=E, omega=W, sin_omega=np.sin(W), cos_omega=np.cos(W),
                incl=np.arccos(ci), b=B, duration=dur, ror=K, t0=T0, t_periastron=tp)
    want = dict(y, b=b, incl=np.arccos(ci), cos_incl=ci, sin_incl=np.sqrt(1 - ci**2), t0=t0, t_periastron=tp)
    if "ecc" in s:
        want.update(ecc=E, sin_omega=np.sin(W), cos_omega=np.cos(W), omega=W)
    kw = {k: allv[k] for k in s}
    if circ_dur and "a" in s:
        kw["a"] = 0.37 * allv["a"]  # ignored
    return dict(kw, m_planet=MP), want


# -- units -----------------------------------------------------------------------------------------------------------
def units(c, cell):
    make = dict(float=lambda: 2.5, int=lambda: 3, array=lambda: np.array([1.0, 2.0]), symbol=lambda: pt.as_tensor_variable(np.array([1.0, 2.0])),
                shared=lambda: pytensor.shared(np.array(4.0)), derived=lambda: 2 * pytensor.shared(np.array([4.0, 1.0])))[cell["obj"]]
    val = np.asarray(ev(make() + pt.zeros(())))
    ops = ("day", "hour", "to day", "to minute", "has")
    for n in range(5):
        for hist in itertools.product(ops, repeat=n):
            x, unit, v = make(), None, val
            c.state(hist)
            c.trace()
            for op in hist:
                c.step()
                if op in ("day", "hour"):
                    if unit is None:
                        x, unit = with_unit(x, getattr(u, op)), getattr(u, op)
                    else:
                        c.raises(TypeError, "a second unit is refused", with_unit, x, getattr(u, op))
                elif op == "has":
                    c.expect(bool(has_unit(x)) == (unit is not None), "has_unit", got=has_unit(x), hist=hist)
                else:
                    tgt = dict(day=u.day, minute=u.minute)[op[3:]]
                    y = to_unit(x, tgt)
                    if unit is None:
                        c.expect(y is x, "an object without units is passed through", hist=hist)
                    else:
                        f = (1 / 24 if unit is u.hour else 1.0) * (1440 if tgt is u.minute else 1)
                        if n < 4 or hist[-1] == op:
                            c.close("converted", ev(y), val * f, 1e-12 * np.abs(val * f), coords=dict(history=str(hist)))
                        c.expect(not has_unit(y), "the result of a conversion is a plain number", hist=hist)
            c.outcome("with units" if unit else "without units")
    for bad in (u.meter, u.kg):
        c.step()
        try:
            to_unit(with_unit(make(), u.day), bad)
        except Exception:
            c.outcome("incompatible")
        else:
            c.expect(False, "incompatible units are refused", unit=str(bad))


# -- requests to orbits and light curves ----------------------------------------------------------------------------
def call(c, cell):
    kind = cell["orbit"]
    o = dict(kepler=lambda: KeplerianOrbit(period=P, b=B), ecc=lambda: KeplerianOrbit(period=P, b=B, ecc=E, omega=W, m_planet=MP),
             ttv=lambda: TTVOrbit(period=P, b=B, ttvs=[np.zeros(3), np.zeros(4)]), simple=lambda: SimpleTransitOrbit(period=P, b=B, duration=np.array([0.1, 0.2])))[kind]()
    t = np.array([-0.02, 0.03, 1.7])
    lc = xo.LimbDarkLightCurve(0.3, 0.2)

    def ask(legal, what, f, *a, want=None, **kw):
        c.state((what,))
        c.step()
        c.trace()
        try:
            r = f(*a, **kw)
        except Exception as e:
            if legal:
                raise
            c.outcome("refused")
            return e
        if c.expect(legal, "refused: " + what, got=repr(r)[:80]):
            r = ev(r)
            c.expect(np.all(np.isfinite(np.concatenate([np.ravel(x) for x in (r if isinstance(r, (list, tuple)) else [r])]))), "served: " + what)
            c.outcome("served")
    args = dict(orbit=o, r=K, t=t)
    for n in range(4):
        for sub in itertools.combinations(args, n):
            for order in (-1, 0, 1, 2, 3):
                for texp in (None, 0.02, np.full(3, 0.02)):
                    legal = n == 3 and (texp is None or 0 <= order <= 2)
                    if texp is None and not 0 <= order <= 2:
                        continue
                    ask(legal, f"light curve of {sub}, order {order}, texp {texp}", lc.get_light_curve, **{k: args[k] for k in sub}, order=order, oversample=3, texp=texp)
                    if n < 3 and kind == "kepler":
                        ask(False, f"eclipses of {sub}, order {order}, texp {texp}", xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.1).get_light_curve,
                            **{k: args[k] for k in sub}, order=order, texp=texp)
    delay = kind != "simple"
    for use in (None, False, True):
        ask(delay and not use, f"light curve with light delay, use_in_transit {use}", lc.get_light_curve, orbit=o, r=K, t=t, light_delay=True, use_in_transit=use)
        ask(True, f"light curve, use_in_transit {use}", lc.get_light_curve, orbit=o, r=K, t=t, light_delay=False, use_in_transit=use)
    for r in (None, K):
        ask(False, "in_transit with light delay", o.in_transit, t, r=r, light_delay=True)
    ask(delay, "relative position with light delay", o.get_relative_position, t, light_delay=True)
    ask(delay, "planet position with light delay", o.get_planet_position, t, light_delay=True)
    for m in ("get_planet_velocity", "get_star_velocity", "get_radial_velocity"):
        ask(delay, m, getattr(o, m), t)
    if kind == "ttv":
        ask(False, "TTVOrbit without transit times", TTVOrbit, period=P, t0=T0)
        ask(False, "TTVOrbit from ttvs without a period", TTVOrbit, ttvs=[np.zeros(3), np.zeros(3)])
    for shape in ((4, 2), (2, 2, 2), (1, 5)):
        ask(False, f"autocorrelation of shape {shape}", xo.estimators.autocorr_function, np.arange(float(np.prod(shape))).reshape(shape))
    x = np.linspace(0.1, 1.0, 7)
    for y in (x, -x, np.ones(7), 1 / x):
        ask(False, "peak of a monotonic spectrum", xo.estimators.find_peaks, x, np.abs(y))
        c.expect(xo.estimators.find_peaks(x, np.abs(y), max_peaks=3) == [], "no peaks in a monotonic spectrum")


def timing(c, cell):
    """All sets of the arguments of a TTVOrbit."""
    labels = [np.array([0, 1, 3, 4]), np.array([1, 2, 5])]
    plain = [np.arange(4), np.arange(3)]
    shifts = [np.array([0.02, -0.03, 0.0, 0.05]), np.array([-0.1, 0.07, 0.04])]
    times = [T0[i] + P[i] * labels[i] + shifts[i] for i in range(2)]
    dlp = np.array([0.01, -0.02])
    give = dict(ttvs=shifts, transit_times=times, transit_inds=labels, period=P * 1.01, a=np.array([9.0, 30.0]), t0=T0, delta_log_period=dlp)
    names = tuple(give)
    for n in range(len(names) + 1):
        for s in map(set, itertools.combinations(names, n)):
            c.state(tuple(sorted(s)))
            c.step()
            c.trace()
            legal = ("ttvs" in s) != ("transit_times" in s) and bool("transit_times" in s or s & {"period", "a"})
            if legal and ("ttvs" in s and "delta_log_period" in s or "transit_times" in s and ("t0" in s or {"period", "delta_log_period"} <= s)):
                c.outcome("not documented")
                continue
            vals = {k: ([pt.as_tensor_variable(x) for x in give[k]] if isinstance(give[k], list) else pt.as_tensor_variable(give[k])) if cell["form"] == "symbols" else give[k] for k in s}
            try:
                o = TTVOrbit(b=B, **vals, **(dict(ecc=E, omega=W) if cell["ecc"] else {}))
            except Exception:
                if legal:
                    raise
                c.outcome("refused")
                continue
            if not c.expect(legal, "illegal arguments served", arguments=sorted(s)):
                continue
            c.outcome("served")
            inds = labels if "transit_inds" in s else plain
            if "ttvs" in s:
                want = give["period"] if "period" in s else 2 * np.pi * give["a"] ** 1.5 / np.sqrt(G)
                t0 = T0 if "t0" in s else np.zeros(2)
                c.close("period", ev(o.ttv_period), want, 1e-9)
                own = [t0[i] + want[i] * inds[i] + shifts[i] for i in range(2)]
                dev = shifts
            else:
                fit = [np.polyfit(inds[i], times[i], 1) for i in range(2)]
                t0, slope = np.array([f[1] for f in fit]), np.array([f[0] for f in fit])
                c.close("ttv_period", ev(o.ttv_period), slope, 1e-9)
                want = give["period"] if "period" in s else slope * np.exp(dlp) if "delta_log_period" in s else slope
                own = times
                dev = [times[i] - t0[i] - slope[i] * inds[i] for i in range(2)]
            c.close("shape period", ev(o.period), want, 1e-9)
            c.close("t0", ev(o.t0), t0, 1e-9)
            if "a" in s:
                c.close("a", ev(o.a), give["a"], 1e-12)
            else:
                c.close("a", ev(o.a), (G * want**2 / (4 * np.pi**2)) ** (1 / 3), 1e-9)
            for i in range(2):
                c.close("transit times", ev(o.transit_times[i]), own[i], 1e-9)
                c.close("ttvs", ev(o.ttvs[i]), dev[i], 1e-9)
                c.close("labels", ev(o.transit_inds[i]), inds[i], 0)
                c.close("labelled transits", ev(o.all_transit_times[i])[inds[i]], own[i], 1e-9)
                x, y, z = ev(o.get_relative_position(own[i]))
                c.close("sky position at mid transit", x[:, i], 0 * own[i], 1e-6)
                c.expect(np.all(z[:, i] > 0), "behind the star at mid transit")
    c.sample(names=names)


def vector(c, cell):
    for shape in ((), (0,), (1,), (2,), (3,), (2, 2), (1, 2)):
        v = 0.3 + 0.1 * np.arange(np.prod(shape, dtype=int)).reshape(shape)
        c.state(shape)
        c.step()
        c.trace()

        def make():
            if cell["known"]:
                return ev(list(parts(xo.LimbDarkLightCurve(v))))
            x = pt.tensor(dtype="float64", shape=(None,) * len(shape))
            return fn([x], list(parts(xo.LimbDarkLightCurve(x))))(v)
        try:
            got = make()
        except Exception:
            c.expect(shape != (2,), "two coefficients are served", shape=shape)
            c.outcome("refused")
            continue
        if c.expect(shape == (2,), "refused: limb darkening of the wrong shape", shape=shape, got=got):
            c.close("u1", got[0], 0.3, 1e-15)
            c.close("u2", got[1], 0.4, 1e-15)
            c.close("light curve", got[2], ev(flux(xo.LimbDarkLightCurve(0.3, 0.4))), 1e-14)
            c.outcome("served")


def flux(lc):
    return lc.get_light_curve(orbit=KeplerianOrbit(period=P, b=B), r=K, t=np.array([-0.02, 0.03, 1.7]))


def parts(lc):
    return lc.u1, lc.u2, flux(lc)


# -- deprecated spellings: still served, with a warning, and the same as the new ones --------------------------------
def alias(c, cell):
    def both(what, old, new, warn=True):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            a = old()
        c.state(what)
        c.step()
        c.trace()
        c.expect(any(issubclass(x.category, DeprecationWarning) for x in seen) or not warn, "a deprecation warning for " + what)
        for g, w in zip(ev(list(a)), ev(list(new()))):
            c.close("same as the new spelling of " + what, g, w, 1e-12 * (1e-12 + np.abs(w)))
        c.outcome("alias")
    name = cell["name"]
    t = np.array([-0.02, 0.03, 1.7])
    attrs = ("m_planet", "m_star", "rho_star", "r_star", "a", "period", "m_total")
    if name == "m_planet_units":
        for un in (u.M_earth, u.M_jup, u.kg, u.M_sun):
            for v in (3.0, np.array([1.0, 200.0])):
                kw = dict(period=P, m_star=0.8, r_star=0.7)
                both(f"m_planet_units {un} {np.shape(v)}", lambda: [getattr(KeplerianOrbit(m_planet=v, m_planet_units=un, **kw), k) for k in attrs],
                     lambda: [getattr(KeplerianOrbit(m_planet=with_unit(v, un), **kw), k) for k in attrs])
    elif name == "rho_star_units":
        for un in (u.g / u.cm**3, u.kg / u.m**3, u.M_sun / u.R_sun**3):
            v = (1.3 * u.g / u.cm**3).to(un).value
            kw = dict(period=P, r_star=0.7)
            both(f"rho_star_units {un}", lambda: [getattr(KeplerianOrbit(rho_star=v, rho_star_units=un, **kw), k) for k in attrs],
                 lambda: [getattr(KeplerianOrbit(rho_star=1.3, **kw), k) for k in attrs])
            both(f"both units {un}", lambda: [getattr(KeplerianOrbit(rho_star=v, rho_star_units=un, m_planet=3.0, m_planet_units=u.M_earth, **kw), k) for k in attrs],
                 lambda: [getattr(KeplerianOrbit(rho_star=1.3, m_planet=with_unit(3.0, u.M_earth), **kw), k) for k in attrs])
    elif name == "vector":
        for v in ([0.3, 0.2], np.array([0.0, 0.0]), pytensor.shared(np.array([0.5, -0.1]))):
            both("vector of coefficients", lambda: parts(xo.LimbDarkLightCurve(v)), lambda: parts(xo.LimbDarkLightCurve(pt.as_tensor_variable(v)[0], pt.as_tensor_variable(v)[1])))
    elif name == "estimators":
        for k in ("lomb_scargle_estimator", "autocorr_estimator", "bls_estimator", "estimate_semi_amplitude", "estimate_minimum_mass", "ImpactParameter", "QuadLimbDark",
                  "LimbDarkLightCurve", "SecondaryEclipseLightCurve", "InterpolatedLightCurve", "angle", "unit_disk", "impact_parameter", "quad_limb_dark", "eccentricity", "orbits", "interp"):
            c.state(k)
            c.step()
            c.trace()
            c.expect(hasattr(xo, k), "public name " + k)
    else:
        old, new = (xo.distributions.ImpactParameter, xo.distributions.impact_parameter) if name == "ImpactParameter" else (xo.distributions.QuadLimbDark, xo.distributions.quad_limb_dark)
        for arg in ((0.1,), (0.25,)) if name == "ImpactParameter" else ((),):
            def logp(f):
                with pm.Model() as m:
                    f("x", *arg)
                ip = m.initial_point()
                return [pytensor.clone_replace(m.logp(), {v: pt.as_tensor_variable(ip[v.name] + dz) for v in m.value_vars}) for dz in (0.0, 0.3, -0.7, 2.0)]
            both(name, lambda: logp(old), lambda: logp(new))
