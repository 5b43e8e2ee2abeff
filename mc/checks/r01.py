import itertools

import numpy as np
import pymc as pm

from mc.core import bfs
from mc.env import ev, fn, pt, pytensor, xo
from mc.orb import KeplerianOrbit, SimpleTransitOrbit, TTVOrbit

RULE = ("cell = (family of outputs, how the replaceable values are stored, which values are replaceable); model state = assignment of one value of its alphabet to every "
        "replaceable input; transition = replacing the value of one input; trace = a path of replacements on a graph built and compiled once, whose outputs are "
        "compared in every state with those of objects built from plain arrays in that state")
BOUNDS = ("29 families of outputs (orbits of every parametrization, TTVs, light curves with and without exposures and selection of times, eclipses, interpolation, priors, "
          "estimators' inputs excepted) x {shared variables, function inputs, pm.Data in a model}; times with 7, 1 and 3 values and two further inputs with 3 values "
          "each (thorough: every pair of inputs; quick: every input, paired with its neighbours), all assignments reached by single replacements from each of 3 assignments in which the graph is built")
ASSUMPTIONS = ["shapes other than the number of times stay the same (pytensor fixes the number of dimensions)"]
A = np.array
T = [A([-0.31, -0.02, 0.0, 0.03, 0.4, 2.9, 7.77]), A([0.011]), A([1.5, -40.02, 0.02])]
N2 = dict(period=[A([3.0, 4.5]), A([3.1, 0.9]), A([12.0, 3.0])], t0=[A([0.0, 0.01]), A([0.4, -1.2]), A([100.0, 0.0])], b=[A([0.3, -0.2]), A([0.0, 0.0]), A([0.9, 1.4])],
          incl=[A([1.5, 1.6]), A([np.pi / 2, 1.4]), A([1.2, 1.57])],
          ecc=[A([0.2, 0.0]), A([0.0, 0.0]), A([0.6, 0.3])], omega=[A([0.3, -2.0]), A([np.pi / 2, 0.0]), A([4.0, 3.0])], Omega=[A([0.0, 0.3]), A([1.0, -2.5]), A([0.0, 0.0])],
          m_planet=[A([0.0, 0.0]), A([0.1, 0.0]), A([0.01, 0.5])], duration=[A([0.1, 0.2]), A([0.3, 0.05]), A([0.02, 0.1])], ror=[A([0.1, 0.05]), A([0.0, 0.3]), A([0.02, 0.2])],
          r=[A([0.1, 0.05]), A([0.0, 0.3]), A([1.1, 0.01])], K=[A([3.0, 1.0]), A([0.0, 7.0]), A([10.0, -2.0])], t_periastron=[A([0.0, 0.5]), A([-3.0, 2.0]), A([1.1, 1.1])],
          tt0=[A([0.0, 3.1, 6.0]), A([0.1, 3.0, 6.2]), A([0.0, 3.0, 6.0])], tt1=[A([0.5, 5.1]), A([0.6, 4.9]), A([-0.2, 5.0])],
          ttv0=[A([0.0, 0.1, -0.1]), A([0.0, 0.0, 0.0]), A([0.3, -0.2, 0.1])], ttv1=[A([0.05, -0.05]), A([0.0, 0.3]), A([0.0, 0.0])], P2=[A([3.05, 4.7]), A([3.0, 4.4]), A([2.9, 4.5])],
          a=[A([8.0, 11.0]), A([9.0, 5.0]), A([20.0, 8.5])], delta=[A([0.01, 0.002]), A([0.03, 0.0004]), A([1e-4, 0.02])])
S = dict(r_star=[A(1.0), A(0.7), A(2.5)], m_star=[A(1.0), A(0.4), A(1.9)], rho_star=[A(1.4), A(0.3), A(5.0)], u1=[A(0.3), A(0.0), A(0.7)], u2=[A(0.2), A(0.0), A(-0.1)],
         texp=[A(0.05), A(0.0), A(0.3)], parallax=[A(0.01), A(0.2), A(1e-3)], s=[A(0.2), A(0.0), A(3.0)], v1=[A(0.1), A(0.6), A(0.0)])
ONE = {k: [A(x[0]) for x in N2[k]] for k in ("period", "t0", "b", "ecc", "omega", "m_planet", "r", "incl", "duration", "ror", "delta")}
ORB = {"circ": ["period", "t0", "b", "r_star", "m_star", "m_planet"], "ecc": ["period", "t0", "b", "ecc", "omega", "r_star", "m_star"],
       "node": ["period", "t0", "incl", "ecc", "omega", "Omega", "m_planet"], "peri": ["period", "t_periastron", "b", "ecc", "omega", "rho_star", "r_star"],
       "axis": ["a", "t0", "b", "ecc", "omega", "m_star", "r_star"], "both": ["a", "period", "t0", "b", "r_star", "m_planet"], "dur": ["period", "t0", "b", "duration", "ror", "r_star"],
       "durecc": ["period", "t0", "duration", "ecc", "omega", "ror", "m_star", "r_star"], "sincos": ["period", "t0", "b", "ecc", "omega", "r_star", "m_star"]}


def orbit(form, v, one=False):
    kw = {k: v[k] for k in ORB[form]}
    if form == "sincos":
        w = kw.pop("omega")
        kw.update(sin_omega=pt.sin(w), cos_omega=pt.cos(w))
    return KeplerianOrbit(**kw)


def motion(o, v):
    t = v["t"]
    return list(o.get_relative_position(t)) + list(o.get_star_position(t)) + list(o.get_planet_velocity(t)) + list(o.get_star_acceleration(t)) + [o.get_radial_velocity(t)]


def ttv(v, how):
    kw = dict(t0=v.get("t0"), b=v["b"], r_star=0.9, m_star=1.1)
    if how == "ttvs":
        return TTVOrbit(period=v["period"], ttvs=[v["ttv0"], v["ttv1"]], **kw)
    kw.pop("t0")
    if how == "period":
        kw["ttv_period"] = v["P2"]
    if how == "inds":
        kw["transit_inds"] = [A([0, 1, 2]), A([0, 2])]
    return TTVOrbit(transit_times=[v["tt0"], v["tt1"]], **kw)


def light(v, o, r, **kw):
    return [xo.LimbDarkLightCurve(v["u1"], v["u2"]).get_light_curve(orbit=o, r=r, t=v["t"], **kw)]


def logp(make):
    """The log density of a model as a function of fixed sampling-space values; the model owns pm.Data of its own only when it is built inside one."""
    with pm.Model() as m:
        make()
    vals = [pt.as_tensor_variable(0.3 + 0.2 * np.arange(max(int(np.prod(np.shape(x))), 1)).reshape(np.shape(x))) for x in m.initial_point().values()]
    return [pytensor.graph.replace.clone_replace(m.logp(), dict(zip(m.value_vars, vals)))]


def families():
    f = {}
    for k, names in ORB.items():
        f["orbit-" + k] = (names, lambda v, k=k: motion(orbit(k, v), v))
    f["angles"] = (["period", "t0", "b", "ecc", "omega", "r_star", "m_star", "parallax"],
                   lambda v: list(orbit("ecc", v).get_relative_angles(v["t"], parallax=v["parallax"])) + list(orbit("ecc", v).get_planet_position(v["t"], parallax=v["parallax"], light_delay=True)))
    f["rv"] = (["period", "t0", "b", "ecc", "omega", "r_star", "m_star", "K"], lambda v: [orbit("ecc", v).get_radial_velocity(v["t"], K=v["K"])])
    f["flip"] = (["period", "t0", "incl", "ecc", "omega", "Omega", "m_planet", "r_star", "m_star"],
                 lambda v: list(KeplerianOrbit(**{k: v[k] for k in ORB["node"] + ["r_star", "m_star"]})._flip(v["r_star"] * 0.1).get_planet_position(v["t"])))
    f["in-transit"] = (["period", "t0", "b", "ecc", "omega", "r_star", "m_star", "r", "texp"], lambda v: [orbit("ecc", v).in_transit(v["t"], r=v["r"], texp=v["texp"])])
    f["in-transit-circ"] = (["period", "t0", "b", "r_star", "m_star", "m_planet", "r"], lambda v: [orbit("circ", v).in_transit(v["t"], r=v["r"])])
    simple = (lambda v: SimpleTransitOrbit(period=v["period"], t0=v["t0"], b=v["b"], duration=v["duration"], r_star=v["r_star"], ror=v["ror"]))
    f["simple"] = (["period", "t0", "b", "duration", "r_star", "ror", "texp"],
                   lambda v: list(simple(v).get_relative_position(v["t"])) + [simple(v).in_transit(v["t"], r=v["ror"] * v["r_star"], texp=v["texp"])])
    for how, names in dict(ttvs=["period", "ttv0", "ttv1"], times=["tt0", "tt1"], period=["tt0", "tt1", "P2"], inds=["tt0", "tt1"]).items():
        names = names + ["b"] + (["t0"] if how == "ttvs" else [])
        f["ttv-" + how] = (names, lambda v, how=how: list(ttv(v, how).get_relative_position(v["t"])) + list(ttv(v, how).transit_times) + list(ttv(v, how).ttvs) + [ttv(v, how).in_transit(v["t"], r=0.1)])
    lc = ["u1", "u2", "r", "period", "t0", "b", "ecc", "omega", "r_star", "m_star"]
    f["lc"] = (lc, lambda v: light(v, orbit("ecc", v), v["r"]))
    f["lc-all"] = (lc, lambda v: light(v, orbit("ecc", v), v["r"], use_in_transit=False, light_delay=True))
    f["lc-texp"] = (["texp"] + lc, lambda v: light(v, orbit("ecc", v), v["r"], texp=v["texp"], oversample=3))
    f["lc-texps"] = (["texp"] + lc, lambda v: light(v, orbit("ecc", v), v["r"], texp=v["texp"] * (1 + 0 * v["t"]), oversample=3, order=2))
    f["lc-simple"] = (["u1", "u2", "period", "t0", "b", "duration", "r_star", "ror"], lambda v: light(v, simple(v), v["ror"] * v["r_star"]))
    f["lc-ttv"] = (["u1", "u2", "period", "ttv0", "ttv1", "b", "t0", "r"], lambda v: light(v, ttv(v, "ttvs"), v["r"]))
    one = (lambda v: KeplerianOrbit(**{k: v[k] for k in ("period", "t0", "b", "ecc", "omega", "m_planet", "m_star", "r_star")}))
    f["eclipse"] = (["1period", "1t0", "1b", "1ecc", "1omega", "1m_planet", "r_star", "m_star", "1r", "u1", "u2", "v1", "s", "texp"],
                    lambda v: [xo.SecondaryEclipseLightCurve([v["u1"], v["u2"]], [v["v1"], 0.1], v["s"]).get_light_curve(orbit=one(v), r=v["r"], t=v["t"], texp=v["texp"], oversample=3)])
    f["interpolated"] = (["u1", "u2", "r", "period", "t0", "b"], lambda v: [xo.light_curves.interpolated.InterpolatedLightCurve(xo.LimbDarkLightCurve(v["u1"], v["u2"]), 60, num_planets=2)
                                                                          .get_light_curve(orbit=KeplerianOrbit(**{k: v[k] for k in ("period", "t0", "b")}), r=v["r"], t=v["t"])])
    f["depth"] = (["u1", "u2", "delta", "b0"], lambda v: list(xo.LimbDarkLightCurve(v["u1"], v["u2"]).get_ror_from_approx_transit_depth(v["delta"], v["b0"], jac=True)))
    f["grid"] = (["g0", "g1", "table", "fill"], lambda v: [xo.interp.RegularGridInterpolator([v["g0"], v["g1"]], v["table"], fill_value=v["fill"]).evaluate(
        pt.stack([v["t"], 0.3 * v["t"] + 0.1], axis=-1)), xo.interp.RegularGridInterpolator([v["g0"], v["g1"]], v["table"]).evaluate(pt.stack([v["t"], 0.3 * v["t"] + 0.1], axis=-1))])
    f["prior-b"] = (["ror", "zero"], lambda v: logp(lambda: xo.distributions.impact_parameter("b", v["ror"] + v["zero"], shape=2)))
    ecc = xo.distributions.eccentricity
    f["prior-ecc"] = (["ecco", "zero"], lambda v: logp(lambda: (ecc.kipping13("k", observed=v["ecco"] + v["zero"]), ecc.vaneylen19("v", observed=v["ecco"] + v["zero"], lower=0.0, upper=0.9),
                                                                ecc.kipping13("q", fixed=False, observed=v["ecco"] + v["zero"]))))
    return f


EXTRA = dict(b0=[A([0.3, -0.2]), A([0.0, 0.0]), A([0.9, 0.99])], zero=[A(0.0), A(0.05), A(0.1)], ecco=[A([0.1, 0.3]), A([0.6, 0.02]), A([0.85, 0.5])],
             g0=[A([-1.0, 0.0, 0.5, 3.0]), A([-50.0, 0.0, 1.0, 8.0]), A([0.0, 1.0, 2.0, 3.0])], g1=[A([-0.1, 0.4, 2.0]), A([-13.0, 0.0, 1.0]), A([0.0, 0.1, 0.2])],
             table=[np.arange(12.0).reshape(4, 3) ** 2, np.sin(np.arange(12.0)).reshape(4, 3), np.zeros((4, 3))], fill=[A(-7.0), A(0.0), A(np.inf)])


def alphabet(name):
    if name == "t":
        return T
    if name[0] == "1":
        return ONE[name[1:]]
    return {**N2, **S, **EXTRA}[name]


NO_T = ("depth", "prior-b", "prior-ecc")


def cells(tier):
    out = []
    for fam, (names, _) in families().items():
        n = len(names)
        for store in ("shared", "input", "data"):
            if tier == "thorough":
                pairs = list(itertools.combinations(range(n), 2))
            elif store == "shared":
                pairs = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
            else:
                pairs = [(0, n // 2)]
            if store == "input" and fam.startswith("prior"):
                continue  # a model needs a value for everything but its variables
            out += [dict(family=fam, store=store, vary=[names[i] for i in sorted(p)]) for p in pairs]
    return out


def run(c, cell):
    fam, store = cell["family"], cell["store"]
    names, make = families()[fam]
    vary = ([] if fam in NO_T else ["t"]) + cell["vary"]
    strip = (lambda k: k[1:] if k[0] == "1" else k)
    fixed = {strip(k): alphabet(k)[0] for k in names if k not in vary}
    if "t" not in vary:
        fixed["t"] = T[0]
    ref = {}

    def build(start):
        first = [alphabet(k)[i] for k, i in zip(vary, start)]
        model = pm.Model()
        with model:
            if store == "data":
                syms = [pm.Data(k, x) for k, x in zip(vary, first)]
            elif store == "shared":
                syms = [pytensor.shared(x, name=k) for k, x in zip(vary, first)]
            else:
                syms = [pt.tensor(dtype="float64", shape=(None,) * x.ndim) if k == "t" else pt.tensor(dtype="float64", shape=x.shape) for k, x in zip(vary, first)]
            outs = make({**fixed, **dict(zip(map(strip, vary), syms))})
        return model, syms, fn(syms if store == "input" else [], outs)

    def values(s):
        return [alphabet(k)[i] for k, i in zip(vary, s)]

    def visit(s, path):
        x = values(s)
        if s not in ref:
            ref[s] = ev(make({**fixed, **dict(zip(map(strip, vary), x))}))
        if store == "input":
            got = F(*x)
        else:
            if store == "data":
                with model:
                    pm.set_data(dict(zip(vary, x)))
            else:
                for y, z in zip(syms, x):
                    y.set_value(z)
            got = F()
        for i, (g, w) in enumerate(zip(got, ref[s])):
            # a vector of times whose length is not known in advance keeps its axis even when there is one time
            g, w = np.asarray(g).ravel(), np.asarray(w).ravel()
            fin = np.abs(w[np.isfinite(w)])
            c.close(f"output {i}", g, w, 1e-11 * (1e-6 + (np.max(fin) if fin.size else 0.0)), coords=dict(state=str(dict(zip(vary, s))), path=str(path)))
        c.state((start, s))
        c.trace()
        c.outcome("one time" if len(dict(zip(vary, x)).get("t", T[0])) == 1 else "several times")
        c.outcome("nonzero", int(any(np.any(np.nan_to_num(np.asarray(w, float)) != 0) for w in ref[s])))

    def successors(s):
        for j, k in enumerate(vary):
            for i in range(len(alphabet(k))):
                if i != s[j]:
                    yield f"{k}:={i}", s[:j] + (i,) + s[j + 1:]

    # the values present while the objects are built must not matter: one graph from each of three assignments
    for start in sorted({tuple(i % len(alphabet(k)) for k in vary) for i in range(3 if store != "input" else 1)}):
        model, syms, F = build(start)
        n, tr, depth = bfs([start], successors, lambda s: s, visit)
        # back to the initial state at the end of the longest path: nothing remembers the other values
        visit(start, ["back"])
        c.step(tr)
    c.sample(states=n, replacements=tr, depth=depth, vary=vary)
