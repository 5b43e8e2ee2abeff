import itertools

import numpy as np
import pandas as pd
import pymc as pm
import pytensor

from mc.env import ev, fn, pt, xo
from mc.orb import KeplerianOrbit, SimpleTransitOrbit, TTVOrbit

RULE = ("cell = (family of outputs, argument or pair of arguments); model state = assignment of a representation to each of the varied arguments, whose numbers never change; transition = "
        "re-expressing one argument; trace = the family evaluated in that state, compared with the answer for plain double precision arrays")
BOUNDS = ("27 families (light curves, exposures, eclipses, interpolation, depths, simple and TTV orbits, expected transits, estimators, peaks, priors) whose arguments are whole numbers; every argument "
          "alone (thorough: every pair of arguments too, in 8 representations), while the others are whole numbers or not, and all together x 19 representations (Python int, float, list, tuple, list of arrays' elements, int8 to int64, float32, "
          "strided, reversed, Fortran-ordered and read-only views, pandas Series, constants, shared variables and symbolic inputs of integer and floating type)")
ASSUMPTIONS = ["single precision numbers may lose single precision", "estimators are given arrays or Series, as documented, with times that astropy's periodogram supports (not 16-bit integers); tables of interpolators are arrays"]
T = np.arange(41.0)


def strided(x):
    return np.repeat(x[..., None], 2, -1)[..., 0] if x.ndim else x


def frozen(x):
    x = np.array(x)
    x.flags.writeable = False
    return x


def whole(x):
    return x.astype(np.int64).tolist()


def tuples(x):
    y = whole(x)
    return tuple(y) if isinstance(y, list) else y


FORMS = dict(
    double=lambda x: x, int=whole, float=lambda x: x.tolist(), tuple=tuples, elements=lambda x: [np.float64(y) for y in x] if x.ndim == 1 else np.float64(x) if not x.ndim else list(x),
    int8=lambda x: x.astype(np.int8), int16=lambda x: x.astype(np.int16), int32=lambda x: x.astype(np.int32), int64=lambda x: x.astype(np.int64), float32=lambda x: x.astype(np.float32),
    strided=strided, reversed=lambda x: x[::-1].copy()[::-1] if x.ndim else x, fortran=lambda x: np.asfortranarray(x) if x.ndim > 1 else strided(x.astype(np.int64)), frozen=frozen,
    series=lambda x: pd.Series(x) if x.ndim == 1 else x.item() if not x.ndim else x,
    constant=lambda x: pt.constant(x.astype(np.int32)), single=lambda x: pt.constant(x.astype(np.float32)),
    shared=lambda x: pytensor.shared(x.astype(np.int64)), replaced=lambda x: pytensor.shared(np.array(x)))
TENSOR = list(FORMS)
ARRAY = ["double", "int16", "int32", "int64", "float32", "strided", "reversed", "fortran", "frozen", "series"]
LOOSE = ("float32", "single")
PAIRED = ("double", "int", "int8", "float32", "strided", "series", "constant", "shared")


def A(x):
    return np.asarray(x, float)


def star(u, *v):
    return xo.LimbDarkLightCurve(u, *v)


def wide(**kw):
    return KeplerianOrbit(period=100.0, b=0.0, r_star=2.0, m_star=1.0, **kw)


def peaks(r):
    return [A([p[k] for p in r["peaks"] for k in sorted(p) if k not in ("index",)]), A([p.get("index", -1) for p in r["peaks"]])]


def logps(make):
    with pm.Model() as m:
        make()
    vals = [pt.as_tensor_variable(A(0.3 + 0.2 * np.arange(int(np.prod(np.shape(x))))).reshape(np.shape(x))) for x in m.initial_point().values()]
    return [pytensor.graph.replace.clone_replace(m.logp(), dict(zip(m.value_vars, vals)))]


D = xo.distributions
EC = D.eccentricity
DATA = (np.arange(60) ** 2) % 13


def families():
    f = {}
    tv = dict(u=[0, 1], r=1, t=T)
    f["light"] = (tv, {}, lambda u, r, t: [star(u).get_light_curve(orbit=wide(), r=r, t=t)])
    f["light pair"] = (dict(u1=1, u2=0, r=[1, 2], t=T), {}, lambda u1, u2, r, t: [star(u1, u2).get_light_curve(orbit=KeplerianOrbit(period=[90.0, 100.0], b=[0.0, 0.2], r_star=3.0, m_star=1.0), r=r, t=t)])
    f["light all"] = (tv, {}, lambda u, r, t: [star(u).get_light_curve(orbit=wide(), r=r, t=t, use_in_transit=False)])
    for order in (0, 1, 2):
        f[f"exposure {order}"] = (dict(tv, texp=2), {}, lambda u, r, t, texp, order=order: [star(u).get_light_curve(orbit=wide(), r=r, t=t, texp=texp, order=order, oversample=3)])
    f["exposures"] = (dict(tv, texp=1 + (T % 3)), {}, lambda u, r, t, texp: [star(u).get_light_curve(orbit=wide(), r=r, t=t, texp=texp, order=2, oversample=5)])
    f["exposures all"] = (dict(tv, texp=1 + (T % 3)), {}, lambda u, r, t, texp: [star(u).get_light_curve(orbit=wide(), r=r, t=t, texp=texp, oversample=4, use_in_transit=False, light_delay=True)])
    f["selection"] = (dict(t=T, r=1, texp=3), {}, lambda t, r, texp: [wide().in_transit(t, r=r, texp=texp), wide(ecc=0.1, omega=0.3).in_transit(t, r=r, texp=texp)])
    f["eclipse"] = (dict(u=[0, 1], v=[1, 0], s=1, r=1, t=T), {}, lambda u, v, s, r, t: [xo.SecondaryEclipseLightCurve(u, v, s).get_light_curve(orbit=wide(m_planet=0.0), r=r, t=t)])
    f["depth"] = (dict(u=[0, 1], delta=0, b=0), {}, lambda u, delta, b: list(star(u).get_ror_from_approx_transit_depth(delta, b, jac=True)))
    f["depths"] = (dict(u=[1, 0], b=[0, 0]), {}, lambda u, b: list(star(u).get_ror_from_approx_transit_depth(A([0.01, 0.02]), b, jac=True)))
    simple = lambda **kw: SimpleTransitOrbit(**kw)  # noqa: E731
    f["simple"] = (dict(period=[100, 20], duration=[9, 3], t0=[1, 2], b=[0, 1], r_star=2, ror=[1, 1], t=T), {}, lambda t, **kw: list(simple(**kw).get_relative_position(t)) + [simple(**kw).in_transit(t, r=1.0)])
    f["simple light"] = (dict(period=100, duration=9, t0=1, b=0, r_star=2, ror=1, t=T), {}, lambda t, **kw: [star([1.0, 0.0]).get_light_curve(orbit=simple(**kw), r=2.0, t=t)])
    f["orbit"] = (dict(period=100, t0=3, b=0, ecc=0, omega=1, m_planet=0, m_star=1, r_star=2, t=T), {},
                  lambda t, **kw: (lambda o: list(o.get_relative_position(t)) + list(o.get_planet_velocity(t)) + list(o.get_star_acceleration(t)) + [o.get_radial_velocity(t, K=3), o.in_transit(t, r=1.0)])(KeplerianOrbit(**kw)))
    f["orbits"] = (dict(period=[100, 127], t_periastron=[3, 100], incl=[1, 2], ecc=[0, 0], omega=[1, 2], Omega=[0, 1], m_planet=[0, 1], rho_star=2, m_star=1, t=T), {},
                   lambda t, **kw: (lambda o: list(o.get_relative_position(t)) + list(o.get_planet_position(t, light_delay=True)) + list(o.get_relative_angles(t, parallax=1)) + [o.get_radial_velocity(t)])(KeplerianOrbit(**kw)))
    f["axis"] = (dict(a=[100, 120], t0=[3, 100], b=[0, 1], r_star=2, m_star=1, t=T), {}, lambda t, **kw: list(KeplerianOrbit(**kw).get_relative_position(t)) + [KeplerianOrbit(**kw).period])
    f["duration"] = (dict(period=[100, 127], t0=[3, 100], b=[0, 0], duration=[2, 1], ror=[0, 1], r_star=2, t=T), {}, lambda t, **kw: list(KeplerianOrbit(**kw).get_relative_position(t)) + [KeplerianOrbit(**kw).rho_star])
    f["velocity"] = (dict(K=[3, 100], t=T), dict(K=[k for k in TENSOR if k != "series"]), lambda K, t: [KeplerianOrbit(period=[10.0, 30.0], ecc=[0.1, 0.0], omega=[0.3, 0.0]).get_radial_velocity(t, K=K)])
    f["sky"] = (dict(parallax=1, t=T), {}, lambda parallax, t: list(wide().get_relative_angles(t, parallax=parallax)) + list(wide().get_planet_position(t, parallax=parallax)))
    kw = dict(b=0.0, r_star=1.0, m_star=1.0)

    def ttv(o, t):
        return list(o.get_relative_position(t)) + list(o.transit_times) + list(o.ttvs) + [o.in_transit(t, r=0.5)]

    f["transit times"] = (dict(times0=[10, 20, 31, 40], times1=[3, 15], t=T), {}, lambda times0, times1, t: ttv(TTVOrbit(transit_times=[times0, times1], **kw), t))
    f["labelled times"] = (dict(times0=[10, 20, 41], inds0=[0, 1, 3], t=T), dict(inds0=[x for x in ARRAY if "float" not in x and x not in ("double", "strided", "reversed", "frozen", "series")] + ["int", "int8"]),
                           lambda times0, inds0, t: ttv(TTVOrbit(transit_times=[times0], transit_inds=[inds0], ttv_period=A([10.0]), **kw), t))
    f["ttvs"] = (dict(ttvs0=[0, 1, 0, 1], period=[10], t0=[1], t=T), {}, lambda ttvs0, period, t0, t: ttv(TTVOrbit(ttvs=[ttvs0], period=period, t0=t0, b=A([0.0]), r_star=1.0, m_star=1.0), t))
    f["expected"] = (dict(t_min=0, t_max=100, period=[10, 7], t0=[3, 90]), dict.fromkeys(("t_min", "t_max", "period", "t0"), ["double", "int", "float", "int16", "int64", "float32", "strided", "frozen"]),
                     lambda t_min, t_max, period, t0: list(xo.orbits.ttv.compute_expected_transit_times(t_min, t_max, period, t0)))
    f["grid"] = (dict(x=[0, 1, 2, 30], y=[0, 10, 100], table=((np.arange(24) ** 3) % 100).reshape(4, 3, 2), fill=7, at=[[1, 5], [2, 99], [29, 1], [31, 0]]),
                 dict(table=["double", "int8", "int16", "int32", "int64", "float32", "strided", "reversed", "fortran", "frozen", "constant", "single", "shared", "replaced"]),
                 lambda x, y, table, fill, at: [xo.interp.RegularGridInterpolator([x, y], table, fill_value=fill).evaluate(at)])
    ints = dict(x=np.arange(60.0), y=A(DATA))
    arrays = dict(x=ARRAY, y=ARRAY)
    f["autocorrelation"] = (dict(ints, yerr=1 + A(DATA) % 3, low=2, high=30), dict(arrays, yerr=ARRAY, low=["double", "int", "float"], high=["double", "int", "float"]),
                            lambda x, y, yerr, low, high: (lambda r: [r["autocorr"][1]] + peaks(r))(xo.autocorr_estimator(x, y, yerr, min_period=low, max_period=high, max_peaks=3)))
    f["periodogram"] = (dict(ints, yerr=1 + A(DATA) % 3, low=2, high=30), dict(arrays, x=[k for k in ARRAY if k != "int16"], yerr=ARRAY, low=["double", "int", "float"], high=["double", "int", "float"]),
                        lambda x, y, yerr, low, high: (lambda r: [r["periodogram"][0], r["periodogram"][1]] + peaks(r))(xo.lomb_scargle_estimator(x, y, yerr, min_period=low, max_period=high, max_peaks=3)))
    f["boxes"] = (dict(ints, yerr=1 + A(DATA) % 3, low=9, high=30), dict(arrays, yerr=ARRAY, low=["double", "int", "float"], high=["double", "int", "float"]),
                  lambda x, y, yerr, low, high: (lambda r: [r["bls"].period.value if hasattr(r["bls"].period, "value") else r["bls"].period, r["bls"].power.value if hasattr(r["bls"].power, "value") else r["bls"].power])(xo.bls_estimator(x, y, yerr, min_period=low, max_period=high)))
    num = [k for k in FORMS if k not in ("constant", "single", "shared", "replaced")]
    f["amplitudes"] = (dict(periods=[10, 23], x=np.arange(60.0), y=A(DATA), yerr=1 + A(DATA) % 3, t0s=[1, 3]), dict(periods=num, x=ARRAY, y=ARRAY, yerr=ARRAY, t0s=num),
                       lambda periods, x, y, yerr, t0s: [xo.estimate_semi_amplitude(periods, x, y, yerr, t0s), xo.estimate_semi_amplitude(periods, x, y)])
    f["masses"] = (dict(periods=[10, 23], x=np.arange(60.0), y=A(DATA), m_star=2), dict(periods=num, x=ARRAY, y=ARRAY, m_star=["double", "int", "float", "int8", "int64", "float32"]),
                   lambda periods, x, y, m_star: [xo.estimate_minimum_mass(periods, x, y, m_star=m_star).value])
    f["impact prior"] = (dict(ror=[1, 0]), {}, lambda ror: logps(lambda: D.impact_parameter("b", ror, shape=2)))
    f["bounds"] = (dict(lower=0, upper=1, at=[0, 1]), dict(at=["double", "int64", "float32", "int"], lower=[k for k in TENSOR if k != "elements"], upper=[k for k in TENSOR if k != "elements"]),
                   lambda lower, upper, at: logps(lambda: (EC.kipping13("k", lower=lower, upper=upper, shape=2), EC.vaneylen19("v", lower=lower, upper=upper, shape=2))))
    return f


def allowed(name, arg):
    return families()[name][1].get(arg, TENSOR)


def cells(tier):
    out = []
    for name, (args, _, _) in families().items():
        names = list(args)
        out.append(dict(family=name, vary="all"))
        out += [dict(family=name, vary=[k]) for k in names]
        if tier == "thorough":
            out += [dict(family=name, vary=list(p)) for p in itertools.combinations(names, 2)]
    return out


def run(c, cell):
    name = cell["family"]
    args, _, make = families()[name]
    args = {k: A(v) for k, v in args.items()}

    def numbers(outs):
        outs = list(outs)
        ten = [i for i, x in enumerate(outs) if hasattr(x, "owner") or hasattr(x, "get_value")]
        val = dict(zip(ten, ev([outs[i] for i in ten]))) if ten else {}
        return [np.asarray(val.get(i, x)) for i, x in enumerate(outs)]

    def judge(rest, plain, state):
        c.state((rest is args, tuple(sorted(state.items()))))
        c.step(len(state))
        try:
            got = numbers(make(**{k: FORMS[state[k]](v) if k in state else rest[k] for k, v in args.items()}))
        except Exception as e:  # noqa: BLE001
            c.fail("refused", state=state, error=repr(e)[:200])
            return
        loose = any(v in LOOSE for v in state.values())
        for i, (g, w) in enumerate(zip(got, plain)):
            if g.size == w.size:  # an axis whose length is not known in advance is kept
                g = g.reshape(w.shape)
            scale = 1e-9 + (float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)) if w.dtype.kind in "fiu" and w.size else 0.0)
            c.close(f"output {i}", np.asarray(g, float), np.asarray(w, float), (2e-5 if loose else 1e-10) * scale, coords=dict(state=str(state), others="whole" if rest is args else "fractional"))
            c.outcome("nonzero", int(np.any(w != 0)))
        c.trace()

    if cell["vary"] == "all":
        plain = numbers(make(**args))
        for form in FORMS:
            judge(args, plain, {k: form for k in args if form in allowed(name, k)})
        outputs = len(plain)
    else:
        # the other arguments are once whole numbers and once not
        for rest in (args, {k: v if k == "inds0" else v + 0.125 for k, v in args.items()}):
            plain = numbers(make(**{k: args[k] if k in cell["vary"] else rest[k] for k in args}))
            for forms in itertools.product(*[[x for x in allowed(name, k) if x in PAIRED or len(cell["vary"]) == 1] for k in cell["vary"]]):
                judge(rest, plain, dict(zip(cell["vary"], forms)))
        outputs = len(plain)
    c.sample(arguments=sorted(args), outputs=outputs)
