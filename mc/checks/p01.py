import astropy.units as u
import numpy as np

from mc.env import ev, pt, xo
from pytensor.graph.basic import equal_computations

RULE = ("cell = (family of objects, first operation); model state = (sequence of calls, fingerprint of every reachable attribute of the objects); transition = one "
        "more call; trace = a sequence replayed on new objects, its last result being compared with the same call on untouched objects")
BOUNDS = ("9 families (Keplerian circular, eccentric, duration, density; transit times; simple; shared light curves; interpolated light curves; estimators and grids), each with two objects of different parameters; "
          "every sequence of 2 of the 18-50 calls of a family (thorough: of 3), and with it every longer sequence of calls that leave "
          "all attributes as they were")
ASSUMPTIONS = ["equal results mean equal to 1e-12 of their size"]
T = np.array([-0.3, 0.0, 0.02, 0.11, 0.9, 1.0, 2.2, 4.7])
R = np.array([0.1, 0.05])


class Kep:
    def __init__(self, **kw):
        self.kw = kw

    def make(self):
        a = dict(period=np.array([3.3, 7.9]), t0=np.array([0.0, 0.9]), b=np.array([0.2, 0.5]), m_planet=np.array([1e-3, 0.2]), r_star=0.9, Omega=np.array([0.3, -1.0]))
        a.update(self.kw)
        b = {k: (np.asarray(v) * (0.97 if k != "m_planet" else 2.0) if k not in ("t0",) else np.asarray(v) + 0.01) for k, v in a.items() if v is not None}
        if "duration" not in a and "rho_star" not in a:
            a["m_star"], b["m_star"] = 1.1, 0.8
        self.params = [a, b]
        one = [{k: np.float64(np.ravel(v)[0]) for k, v in p.items() if v is not None} for p in self.params]
        return dict(a=self.new(a), b=self.new(b), single=dict(a=self.new(one[0]), b=self.new(one[1])), star=xo.LimbDarkLightCurve(0.3, 0.2),
                    ecl=xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.5, 0.1], 0.4))

    def new(self, p):
        return xo.orbits.KeplerianOrbit(**p)

    def ops(self):
        out = {}
        for o in "ab":
            for meth in ("get_planet_position", "get_star_position", "get_relative_position", "get_planet_velocity", "get_star_velocity", "get_relative_velocity",
                         "get_radial_velocity", "get_relative_angles", "get_relative_acceleration"):
                out[o + "." + meth] = lambda w, o=o, meth=meth: getattr(w[o], meth)(w["t"])
            out[o + ".rvK"] = lambda w, o=o: w[o].get_radial_velocity(w["t"], K=w["K"])
            out[o + ".relpar"] = lambda w, o=o: w[o].get_relative_position(w["t"], parallax=0.3)
            out[o + ".delay"] = lambda w, o=o: w[o].get_relative_position(w["t"], light_delay=True)
            out[o + ".in_transit"] = lambda w, o=o: w[o].in_transit(w["t"], r=w["r"], texp=0.05)
            out[o + ".lc"] = lambda w, o=o: w["star"].get_light_curve(orbit=w[o], r=w["r"], t=w["t"])
            out[o + ".lctexp"] = lambda w, o=o: w["star"].get_light_curve(orbit=w[o], r=w["r"], t=w["t"], texp=w["texp"], oversample=3, order=1, use_in_transit=False)
            out[o + ".eclipse"] = lambda w, o=o: w["ecl"].get_light_curve(orbit=w["single"][o], r=w["r"][0], t=w["t"])
        # the same calls with other arguments
        out["a.relative-other"] = lambda w: w["a"].get_relative_position(w["t2"])
        out["a.rvK-other"] = lambda w: w["a"].get_radial_velocity(w["t"], K=2 * w["K"])
        out["a.rv-other"] = lambda w: w["a"].get_radial_velocity(w["t"], output_units=u.km / u.s)
        out["a.velocity-other"] = lambda w: list(w["a"].get_planet_velocity(w["t2"])) + list(w["a"].get_star_velocity(w["t2"]))
        out["a.relpar-other"] = lambda w: w["a"].get_relative_position(w["t"], parallax=0.7)
        out["a.delay-other"] = lambda w: w["a"].get_relative_position(w["t2"], light_delay=True)
        out["a.in_transit-other"] = lambda w: w["a"].in_transit(w["t2"], r=2 * w["r"])
        out["a.lc-other"] = lambda w: w["star"].get_light_curve(orbit=w["a"], r=2 * w["r"], t=w["t2"])
        out["a.eclipse-other"] = lambda w: w["ecl"].get_light_curve(orbit=w["single"]["a"], r=w["r"][1], t=w["t2"])
        return out


class TTV(Kep):
    def make(self):
        a = dict(period=np.array([3.3, 7.9]), t0=np.array([0.0, 0.9]), b=np.array([0.2, 0.5]), ttvs=[np.array([0.01, -0.02, 0.015]), np.array([0.0, 0.05])],
                 ecc=np.array([0.1, 0.2]), omega=np.array([0.5, 1.0]), r_star=0.9, m_star=1.0)
        b = dict(transit_times=[np.array([0.01, 3.4, 6.6, 10.0]), np.array([0.9, 8.8])], b=np.array([0.1, 0.3]), m_planet=np.array([0.0, 0.1]), m_star=0.9, r_star=0.7)
        self.params = [a, b]
        return dict(a=self.new(a), b=self.new(b), star=xo.LimbDarkLightCurve(0.3, 0.2))

    def new(self, p):
        return xo.orbits.TTVOrbit(**p)

    def ops(self):
        out = {k: v for k, v in super().ops().items() if not k.endswith(("eclipse", "relpar", "eclipse-other", "relpar-other", "acceleration", "star_velocity", "angles"))}
        for o in "ab":
            out[o + ".times"] = lambda w, o=o: list(w[o].all_transit_times)
        return out


class Simple(Kep):
    def make(self):
        a = dict(period=np.array([3.3, 7.9]), t0=np.array([0.0, 0.9]), b=np.array([0.2, 0.5]), duration=np.array([0.1, 0.2]), r_star=0.9, ror=np.array([0.1, 0.05]))
        b = dict(period=[3.1, 7.0], t0=[0.05, 0.8], b=[0.3, 0.0], duration=[0.15, 0.1], r_star=1.2)
        self.params = [a, b]
        return dict(a=self.new(a), b=self.new(b), star=xo.LimbDarkLightCurve(0.3, 0.2))

    def new(self, p):
        return xo.orbits.SimpleTransitOrbit(**p)

    def ops(self):
        keep = ("get_planet_position", "get_relative_position", "get_star_position", "in_transit", ".lc", ".lctexp", "relative-other", "in_transit-other", "lc-other")
        return {k: v for k, v in super().ops().items() if k.endswith(keep)}


class Curves(Kep):
    """Light curve objects shared between orbits, radii and exposure options."""

    def make(self):
        w = super().make()
        w["other"] = xo.LimbDarkLightCurve(np.float64(0.6), 0.1)
        w["old"] = xo.light_curves.LimbDarkLightCurve(np.array([0.3, 0.2]))
        return w

    def ops(self):
        out = {}
        for s in ("star", "other", "old"):
            out[s + ".depth"] = lambda w, s=s: w[s].get_ror_from_approx_transit_depth(w["r"] ** 2, 0.5 * w["r"])
            for o in "ab":
                for name, kw in (("plain", {}), ("texp", dict(texp=0.05)), ("texps", dict(texp="texp", oversample=5, order=2)), ("full", dict(use_in_transit=False)),
                                 ("delay", dict(light_delay=True)), ("r2", dict(r=2 * R))):
                    out[f"{s}.{o}.{name}"] = (lambda w, s=s, o=o, kw=kw: w[s].get_light_curve(
                        **{**dict(orbit=w[o], r=w["r"], t=w["t"]), **{k: (w["texp"] if isinstance(v, str) else v) for k, v in kw.items()}}))
        for o in "ab":
            out[o + ".eclipse"] = lambda w, o=o: w["ecl"].get_light_curve(orbit=w["single"][o], r=w["r"][0], t=w["t"], texp=0.02, oversample=3)
            out[o + ".eclipse-r2"] = lambda w, o=o: w["ecl"].get_light_curve(orbit=w["single"][o], r=2 * w["r"][0], t=w["t"])
            out[o + ".position"] = lambda w, o=o: w[o].get_relative_position(w["t"])
        return out


class Interp(Kep):
    """Interpolated light curves shared between orbits."""

    def make(self):
        w = super().make()
        w["i2"] = xo.InterpolatedLightCurve(w["star"], 25, num_planets=2)
        w["i1"] = xo.InterpolatedLightCurve(w["star"], 30, num_planets=1)
        w["ie"] = xo.InterpolatedLightCurve(w["ecl"], 30, num_planets=1)
        return w

    def ops(self):
        out = {}
        for o in "ab":
            for name, kw in (("plain", {}), ("texp", dict(texp=0.05)), ("r2", dict(r=2 * R)), ("t2", dict(t="t2"))):
                def call(w, i, orbit, kw, one):
                    a = {**dict(r=w["r"], t=w["t"]), **{k: (w[v] if isinstance(v, str) else v) for k, v in kw.items()}}
                    return w[i].get_light_curve(**dict(a, orbit=orbit, r=a["r"][0] if one else a["r"]))
                out[f"i2.{o}.{name}"] = lambda w, o=o, kw=kw, f=call: f(w, "i2", w[o], kw, False)
                out[f"i1.{o}.{name}"] = lambda w, o=o, kw=kw, f=call: f(w, "i1", w["single"][o], kw, True)
                out[f"ie.{o}.{name}"] = lambda w, o=o, kw=kw, f=call: f(w, "ie", w["single"][o], kw, True)
            out[f"star.{o}"] = lambda w, o=o: w["star"].get_light_curve(orbit=w[o], r=w["r"], t=w["t"])
        return out


X = np.sort(np.concatenate([np.linspace(0, 21, 90), 0.37 + np.linspace(1, 19, 31)]))


class Arrays(Kep):
    """The functions of arrays: their arguments are theirs to read only."""

    def make(self):
        y = 3 * np.sin(2 * np.pi * X / 3.3 + 0.4) + 0.5 + 0.1 * np.cos(7 * X)
        p = [np.array([0.0, 1.0, 3.0]), np.array([-1.0, 0.5])]
        v = np.arange(12.0).reshape(3, 2, 2) ** 2
        self.params = [dict(x=X.copy(), y=y, e=0.1 + 0.01 * X, f=np.linspace(0.1, 2, 200), P=np.array([3.3, 7.1]), T=np.array([0.2, 1.1]),
                            power=2 + np.sin(np.linspace(0, 40, 200)) + np.linspace(0, 1, 200), p0=p[0], p1=p[1], v=v, c=np.array([[0.5, 0.0], [9.0, 0.2], [1.0, -1.0]]))]
        d = self.params[0]
        return dict(d, grid=xo.interp.RegularGridInterpolator([d["p0"], d["p1"]], d["v"]), filled=xo.interp.RegularGridInterpolator([d["p0"], d["p1"]], d["v"], fill_value=-3.0))

    def ops(self):
        es, out = xo.estimators, {}

        def peaks(ps):
            return [np.array([[k.get("index", 0), k["period"], k["period_uncert"], k.get("log_power", 0)] for k in ps], float).reshape(-1, 4)]
        for n in (1, 5):
            out[f"find_peaks.{n}"] = lambda w, n=n: peaks(es.find_peaks(w["f"], w["power"], max_peaks=n))
        for n, kw in (("plain", {}), ("filter", dict(filter_period=5.0)), ("errors", dict(yerr="e", min_period=1.5)), ("one", dict(max_peaks=1, max_period=6.0))):
            def ls(w, kw=kw):
                r = es.lomb_scargle_estimator(w["x"], w["y"], **{**dict(min_period=1.0, max_period=10.0), **{k: (w[v] if isinstance(v, str) else v) for k, v in kw.items()}})
                return list(r["periodogram"]) + peaks(r["peaks"])
            out["lomb." + n] = ls
        for n, kw in (("plain", {}), ("smooth", dict(smooth=1.0)), ("limits", dict(min_period=2.0, max_period=9.0))):
            def ac(w, kw=kw):
                r = es.autocorr_estimator(w["x"], w["y"], **kw)
                return list(r["autocorr"]) + peaks(r["peaks"])
            out["autocorr." + n] = ac
        for n, kw in (("plain", {}), ("errors", dict(yerr="e")), ("short", dict(duration=0.1, max_period=6.0))):
            def bls(w, kw=kw):
                r = es.bls_estimator(w["x"], w["y"], **{**dict(min_period=1.0, max_period=10.0), **{k: (w[v] if isinstance(v, str) else v) for k, v in kw.items()}})
                return [np.asarray(r["bls"].period), np.asarray(r["bls"].power), np.asarray(r["bls"].transit_time)] + peaks(r["peaks"])
            out["bls." + n] = bls
        for n, kw in (("plain", {}), ("t0", dict(t0s="T")), ("errors", dict(yerr="e")), ("both", dict(yerr="e", t0s="T"))):
            out["K." + n] = lambda w, kw=kw: [es.estimate_semi_amplitude(w["P"], w["x"], w["y"], **{k: w[v] for k, v in kw.items()})]
            out["mass." + n] = lambda w, kw=kw: [es.estimate_minimum_mass(w["P"], w["x"], w["y"], m_star=1.3, **{k: w[v] for k, v in kw.items()}).value]
        for g in ("grid", "filled"):
            out[g + ".evaluate"] = lambda w, g=g: w[g].evaluate(w["c"])
        out["interp"] = lambda w: xo.interp.regular_grid_interp([w["p0"], w["p1"]], w["v"], w["c"], fill_value=1.0)
        out["expected"] = lambda w: xo.orbits.ttv.compute_expected_transit_times(-3.0, 12.0, w["P"], w["T"])
        return out


FAMILIES = {
    "circular": lambda: Kep(),
    "eccentric": lambda: Kep(ecc=np.array([0.1, 0.4]), omega=np.array([1.0, -2.0])),
    "duration": lambda: Kep(duration=np.array([0.1, 0.2]), r_star=0.9, ror=R, m_planet=np.array([0.0, 0.0])),
    "density": lambda: Kep(rho_star=1.4, ecc=np.array([0.0, 0.3]), omega=np.array([0.4, 2.0])),
    "ttv": lambda: TTV(), "simple": lambda: Simple(),
    "interpolated": lambda: Interp(), "arrays": lambda: Arrays(),
    "curves": lambda: Curves(ecc=np.array([0.1, 0.4]), omega=np.array([1.0, -2.0])),
}


def cells(tier):
    out = []
    for k, f in FAMILIES.items():
        fam = f()
        out += [dict(family=k, first=o, depth=3 if tier == "thorough" and k != "ttv" else 2) for o in fam.ops()]
    return out


def fingerprint(x, depth=0, seen=None):
    """Identity of graphs (immutable) and contents of containers, arrays and exoplanet objects."""
    seen = {} if seen is None else seen
    if isinstance(x, (int, float, str, bool, bytes, type(None))):
        return x
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(fingerprint(y, depth + 1, seen) for y in x)
    if isinstance(x, dict):
        return tuple((str(k), fingerprint(y, depth + 1, seen)) for k, y in sorted(x.items(), key=lambda q: str(q[0])))
    if id(x) in seen:
        return ("seen", seen[id(x)])
    seen[id(x)] = len(seen)
    if type(x).__module__.startswith("exoplanet") and hasattr(x, "__dict__"):
        return (type(x).__name__, fingerprint(vars(x), depth + 1, seen))
    return ("object", type(x).__name__, id(x))


def classes():
    """Fingerprint of the mutable data kept on classes and modules of exoplanet."""
    import sys
    out = []
    for name, mod in sorted(sys.modules.items()):
        if name == "exoplanet" or name.startswith("exoplanet."):
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, (dict, list, np.ndarray, int, float)) and not k.startswith("__"):
                    out.append((name, k, repr(v)[:2000]))
                if isinstance(v, type) and v.__module__ == name:
                    for kk, vv in sorted(vars(v).items()):
                        if isinstance(vv, (dict, list, np.ndarray, int, float)) and not kk.startswith("__"):
                            out.append((name, k, kk, repr(vv)[:2000]))
    return tuple(out)


def inputs():
    return dict(t=T.copy(), t2=T[::-1] * 0.9 + 0.01, r=R.copy(), K=np.array([3.0, 11.0]), texp=0.02 + 0.01 * np.arange(len(T)))


def flat(x):
    return [np.asarray(q) for q in (x if isinstance(x, (list, tuple)) else [x])]


_FRESH = {}


def fresh(family, op):
    if (family, op) not in _FRESH:
        fam = FAMILIES[family]()
        w = {**fam.make(), **inputs()}
        graph = [pt.as_tensor_variable(x) for x in unpack(fam.ops()[op](w))]
        _FRESH[family, op] = graph, flat(ev(graph))
    return _FRESH[family, op]


def unpack(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def run(c, cell):
    family = cell["family"]
    fam = FAMILIES[family]()
    ops = fam.ops()

    def world(trail):
        w = fam.make()
        inp = inputs()
        return replay(dict(w=w, inp=inp, env={**w, **inp}, keep={k: np.array(v, copy=True) for k, v in inp.items()}, params=fam.params,
                           pkeep=[{k: copied(v) for k, v in p.items()} for p in fam.params]), trail)

    def replay(W, trail):
        for op in trail:
            ops[op](W["env"])
        W["at"] = fingerprint(W["w"]), classes()
        return W

    def call(W, op, trail):
        """One more call on W after `trail`; True if any attribute changed."""
        res = [pt.as_tensor_variable(x) for x in unpack(ops[op](W["env"]))]
        graph, want = fresh(family, op)
        c.expect(len(res) == len(want), "number of results", trail=trail + [op])
        # the same computation on the same constants gives the same numbers: evaluate only graphs that differ
        if len(res) == len(graph) and equal_computations(res, graph, strict_dtype=True):
            got = want
            c.outcome("same graph")
        else:
            got = flat(ev(res))
            c.outcome("evaluated")
        for g, q in zip(got, want):
            c.close("same as on a fresh object", g, q, 1e-12 * (1 + np.abs(np.where(np.isfinite(q.astype(float)), q, 0))).astype(float), coords=dict(trail=[trail + [op]]))
        for k, v in W["inp"].items():
            c.expect(np.array_equal(v, W["keep"][k]), "argument modified", which=k, trail=trail + [op])
        for p, q in zip(W["params"], W["pkeep"]):
            for k, v in p.items():
                c.expect(same(v, q[k]), "constructor argument modified", which=k, trail=trail + [op])
        after = fingerprint(W["w"]), classes()
        c.outcome("unchanged" if after == W["at"] else "changed")
        c.trace()
        return after != W["at"]

    def explore(trail):
        """Every continuation of `trail`; a call that leaves every attribute as it was does not need a new world for the next."""
        W = None
        for op in ops:
            if W is None:
                W = world(trail)
            c.step()
            changed = call(W, op, trail)
            if changed:
                W = None
            nxt = trail + [op]
            c.state(tuple(nxt))
            if c.nfails:
                return
            if len(nxt) < cell["depth"]:
                explore(nxt)

    W = world([])
    c.step()
    c.state((cell["first"],))
    call(W, cell["first"], [])
    explore([cell["first"]])
    c.sample(trail=[cell["first"], list(ops)[-1]])


def copied(v):
    return [np.array(x, copy=True) for x in v] if isinstance(v, list) else np.array(v, copy=True)


def same(v, q):
    if isinstance(q, list):
        return len(v) == len(q) and all(np.array_equal(x, y) for x, y in zip(v, q))
    return np.array_equal(v, q)
