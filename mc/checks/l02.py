import warnings

import numpy as np

from mc.core import product
from mc.env import ev, fn, pt, xo
from mc.lc import KINDS, System, light_curve
from mc.ref import blocked_flux

RULE = ("cell = (orbit kind, number of planets, radius form, limb-darkening form, selection of times); model state = (planet, radius, time "
        "slot); transition = stepping the time across transits, eclipses and whole periods; trace = one light curve replayed on "
        "get_light_curve and compared column by column with the flux hidden by the reference planet")
BOUNDS = ("9 orbit kinds x 1-3 planets x radii as scalar/list/array/symbolic/column x 4 limb-darkening forms x 5 pairs x stellar radii 0.5-3 x "
          "times shuffled, far and near; light delay; scaling of all lengths by 0.01-100; scalar, 1-D and 2-D times without selection")
ASSUMPTIONS = ["flux differences below 1e-6 plus the effect of rounding in the phase are not judged"]
LDS = [(0.3, 0.2), (0.0, 0.0), (1.0, 0.0), (0.2, 0.6), (0.6, -0.2)]


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["curve"], orbit=KINDS, npl=[1, 2, 3], rform=["array", "list", "symbolic", "column"] , uit=[None, False], ld=[0, 3], ldform=["values"])
    out += product(kind=["curve"], orbit=["circ", "ecc", "simple", "ttv"], npl=[1], rform=["scalar", "zero-d", "symscalar", "int"], uit=[None, False], ld=[0, 4], ldform=["values"])
    out += product(kind=["curve"], orbit=["circ"], npl=[2], rform=["array"], uit=[None, True, False], ld=list(range(5)), ldform=["vector", "list", "tensor"])
    out = [x for i, x in enumerate(out) if d or x["npl"] < 3 or x["rform"] in ("array", "symbolic")]
    out += product(kind=["sizes"], orbit=["circ", "ecc", "simple", "ttv", "rho"], rs=[0.5, 1.0, 3.0], ld=[0, 1, 2], r=[0.0, 0.01, 0.3, 1.0, 1.6])
    out += product(kind=["scale"], orbit=["circ", "ecc", "ttv", "simple", "node"], s=[0.01, 0.3, 7.0, 100.0])
    out += product(kind=["shape"], orbit=["circ", "ecc", "simple", "ttv"], npl=[1, 2])
    out += product(kind=["delay"], orbit=["circ", "ecc", "node", "ttv"], npl=[1, 2, 3])
    out += product(kind=["missing"], orbit=["circ"])
    return out


def run(c, cell):
    globals()["run_" + cell["kind"]](c, cell)


def compare(c, lab, got, want, s, t, extra=0.0):
    # rounding of the phase grows with the number of periods since t0
    tol = 1e-6 + 1e-9 * np.abs((np.asarray(t)[..., None] - s.t0) / s.P) + extra
    near = np.zeros(want.shape, bool)
    for j, e in enumerate(s.boundaries()):
        near[..., j] = np.any(np.abs(np.asarray(t)[..., None] - e) < 1e-8, axis=-1)
    c.close(lab, got, want, np.where(near, np.inf, tol), dict(t=np.asarray(t)[..., None]))


def run_curve(c, cell):
    npl = cell["npl"]
    s = System(cell["orbit"], npl, scalar=cell["rform"] in ("scalar", "zero-d", "symscalar", "int"))
    u = LDS[cell["ld"]]
    lc = light_curve(u, cell["ldform"])
    r, inp, val = s.r, (), ()
    f = cell["rform"]
    if f == "int":
        r = np.array([1.0])
    arg = {"array": r, "list": r.tolist(), "column": r[:, None], "scalar": float(r[0]), "zero-d": np.array(r[0]), "int": 1}.get(f)
    if f in ("symbolic", "symscalar"):
        arg = pt.dvector() if f == "symbolic" else pt.dscalar()
        inp, val = (arg,), (r if f == "symbolic" else r[0],)
    t = s.times()
    t = t[np.argsort(np.sin(np.arange(len(t)) * 12.9898) * 43758.5453 % 1)]  # a fixed shuffle
    got = ev(lc.get_light_curve(orbit=s.orbit, r=arg, t=t, use_in_transit=cell["uit"]), inp, val)
    want = s.flux(u, t, r)
    compare(c, "light curve", got, want, s, t)
    c.lattice(np.arange(npl)[:, None], t[None, :])
    c.outcome("in transit", int(np.sum(want < 0)))
    c.outcome("out of transit", int(np.sum(want == 0)))
    c.sample(t=t[0], got=got[0], want=want[0])


def run_sizes(c, cell):
    s = System(cell["orbit"], 1, rs=cell["rs"])
    u = LDS[cell["ld"]]
    lc = light_curve(u, "values")
    t = s.times(30)
    r = np.array([cell["r"] * cell["rs"]])
    for uit in (None, False):
        got = ev(lc.get_light_curve(orbit=s.orbit, r=r, t=t, use_in_transit=uit))
        want = s.flux(u, t, r)
        if cell["orbit"] == "simple" and uit is None:
            # beyond half the duration the simple orbit puts the planet behind the star
            pass
        compare(c, "light curve", got, want, s, t, 3e-5 if cell["r"] == 1.0 else 0.0)
    c.lattice(t)
    c.outcome("in transit", int(np.sum(want < 0)))
    c.outcome("out of transit", int(np.sum(want == 0)))
    c.sample(r=r, depth=float(-want.min()))


def run_scale(c, cell):
    u = LDS[0]
    lc = light_curve(u, "values")
    a, b = System(cell["orbit"], 2), System(cell["orbit"], 2, scale=cell["s"])
    t = a.times(30)
    for uit in (None, False):
        x = ev(lc.get_light_curve(orbit=a.orbit, r=a.r, t=t, use_in_transit=uit))
        y = ev(lc.get_light_curve(orbit=b.orbit, r=b.r, t=t, use_in_transit=uit))
        c.close("scaling every length", y, x, 1e-7, dict(t=t[:, None]))
        c.trace()
    c.lattice(np.arange(2)[:, None], t[None, :])
    c.outcome("scaled", len(t))
    c.sample(s=cell["s"], depth=float(-x.min()))


def run_shape(c, cell):
    s = System(cell["orbit"], cell["npl"])
    u = LDS[0]
    lc = light_curve(u, "values")
    base = s.times(10)[:24]
    for shape in ((), (1,), (24,), (2, 12), (3, 1, 8), (1, 24), (24, 1)):
        t = base[: int(np.prod(shape))].reshape(shape)
        got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, use_in_transit=False))
        compare(c, f"light curve at times of shape {shape}", got, s.flux(u, t), s, t)
        if len(shape) == 1:
            for tt in (t.tolist(), t.astype("float64"), pt.as_tensor_variable(t)):
                for uit in (None, True, False):
                    got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=tt, use_in_transit=uit))
                    compare(c, f"light curve at times of kind {type(tt).__name__}", got, s.flux(u, t), s, t)
        for q in np.ravel(t):
            c.state((shape, float(q)))
        c.step(t.size)
        c.trace()
        c.outcome(f"{len(shape)}-D times")
    ti = np.arange(-20, 21)
    for uit in (None, False):
        got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=ti, use_in_transit=uit))
        compare(c, "light curve at integer times", got, s.flux(u, ti), s, ti)
    e = np.zeros(0)
    for uit in (None, False):
        got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=e, use_in_transit=uit))
        c.close("no times", got, np.zeros((0, cell["npl"])), 0)
    c.sample(flux=got)


def run_delay(c, cell):
    s = System(cell["orbit"], cell["npl"])
    u = LDS[0]
    lc = light_curve(u, "values")
    t = s.times(30)
    want = s.flux(u, t, light_delay=True)
    x, y, z = s.pos(t, light_delay=True)
    got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, light_delay=True))
    # the delay is expanded to second order in the code under test
    compare(c, "light curve with light delay", got, want, s, t, 2e-5)
    c.lattice(np.arange(cell["npl"])[:, None], t[None, :])
    c.outcome("in transit", int(np.sum(want < 0)))
    c.outcome("out of transit", int(np.sum(want == 0)))
    c.sample(t=t[5], got=got[5])


def run_missing(c, cell):
    s = System("circ", 1)
    for lc in (light_curve((0.3, 0.2), "values"), light_curve((0.3, 0.2), "vector")):
        full = dict(orbit=s.orbit, r=s.r, t=np.array([0.0]))
        for drop in (["orbit"], ["r"], ["t"], ["orbit", "r"], ["r", "t"], ["orbit", "t"], ["orbit", "r", "t"]):
            for none in (False, True):
                kw = {k: v for k, v in full.items() if k not in drop}
                if none:
                    kw.update({k: None for k in drop})
                c.raises(ValueError, f"missing {drop}", lc.get_light_curve, **kw)
                c.state((tuple(drop), none))
                c.step()
        c.trace()
        c.outcome("rejected", 14)
    for bad in ([0.1], [0.1, 0.2, 0.3]):
        def f(bad=bad):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return ev(xo.LimbDarkLightCurve(bad).c)
        c.raises((AssertionError, ValueError, IndexError), "a vector of limb darkening coefficients of the wrong length", f)
