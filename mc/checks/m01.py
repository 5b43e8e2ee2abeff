import numpy as np
import pymc as pm
from scipy import stats

from mc.core import product
from mc.dist import Pushed  # noqa: F401
from mc.env import fn, pt, pytensor, xo
from mc.lc import light_curve  # noqa: F401
from mc.checks.l04 import nodes
from mc.orb import semi_major
from mc.ref import GCC, RefOrbit, blocked_flux, t_peri_from_t0

RULE = ("cell = (combination of prior components, orbit, data, number of planets, nesting of the models); model state = point of the joint sampling space reached "
        "from a base point by at most two coordinate steps; transition = one step; trace = one walk evaluated by the joint model's own log density, every "
        "prediction and the total being compared with separately built parts and the reference light curve and radial velocity")
BOUNDS = ("eccentricity {none, Beta + angle, hierarchical Beta + angle, unit disk, mixture + sine and cosine} x limb darkening {fixed, prior} x radius ratio {fixed, "
          "uniform, from the depth} x impact parameter {fixed, uniform, prior} x orbit {stellar mass, density, duration, transit times} x data {light curve, exposures, radial "
          "velocity, both, two bodies} x {1 planet, 2 as vectors, 2 with variables of their own} x {plain, named, nested} models: quick, every combination of eccentricity prior, orbit and data, the other axes in turn; thorough, every combination with "
          "{all fixed, all random, depth} priors; every single step and every pair of neighbouring coordinates from 2 base points (thorough: every pair)")
ASSUMPTIONS = ["the separately built parts have the right densities (D01-D06)", "steps stay within 0.4 of the base points in the sampling space"]
S2 = np.array([0.3, -0.2])
T = np.concatenate([np.linspace(-0.31, 0.33, 14), np.linspace(1.2, 4.6, 17), [9.1, -17.03, 33.02, 60.11]])
TEXP = 0.04
SIG = 0.004
P0, E0 = np.array([3.1, 4.7]), np.array([0.02, 1.6])


def cells(tier):
    ax = dict(ecc=["none", "beta", "hier", "disk", "mix"], orbit=["mass", "density", "duration", "ttv"], data=["lc", "texp", "rv", "both", "two"],
              npl=[1, 2, "apart"], nest=["plain", "named", "nested"])
    legal = (lambda x: not (x["orbit"] == "duration" and x["ecc"] != "none")
             and not (x["data"] == "two" and (x["npl"] != 1 or x["orbit"] in ("ttv", "duration", "density"))))
    priors = [dict(ld="fixed", size="fixed", b="uniform"), dict(ld="prior", size="uniform", b="prior"), dict(ld="prior", size="depth", b="fixed")]
    if tier == "thorough":
        out = [dict(x, **y) for x in product(**ax) for y in priors]
        out += product(**{**ax, "ecc": ["none", "disk"], "data": ["lc", "both"], "nest": ["plain"]}, ld=["fixed", "prior"], size=["fixed", "uniform", "depth"], b=["fixed", "uniform", "prior"])
    else:
        # every combination of eccentricity prior, orbit and data; the other axes take turns so that each pair of their values occurs
        out = []
        for i, x in enumerate(product(ecc=ax["ecc"], orbit=ax["orbit"], data=ax["data"])):
            npl = 1 if x["data"] == "two" else ax["npl"][(i + i // 5 + i // 20) % 3]
            out.append(dict(x, npl=npl, nest=ax["nest"][(i // 2 + i // 5) % 3], **priors[(i + i // 15) % 3]))
    out = list({repr(sorted(x.items())): x for x in out if legal(x)}.values())
    return [dict(x, tier=tier) for x in out]


def parts(cell):
    """The prior components: name -> function that creates it in the current model and returns its variables."""
    n = 1 if cell["npl"] == 1 else 2
    d = xo.distributions
    out = {}
    out["radius"] = lambda: dict(r_star=pm.LogNormal("r_star", 0.0, 0.1, initval=0.9))
    if cell["orbit"] in ("mass", "ttv"):
        out["star"] = lambda: dict(m_star=pm.LogNormal("m_star", 0.0, 0.1, initval=1.1))
    elif cell["orbit"] == "density":
        out["star"] = lambda: dict(rho_star=pm.LogNormal("rho_star", 0.3, 0.2, initval=1.3))
    if cell["orbit"] == "ttv":
        out["ttv"] = lambda: {"ttv%d" % i: pm.Normal("ttv%d" % i, 0.0, 0.1, shape=k, initval=0.03 * np.cos(np.arange(k) + i)) for i, k in enumerate((3, 2)[:n])}
    out["ld"] = (lambda: dict(u=d.quad_limb_dark("u", initval=[0.4, 0.2]))) if cell["ld"] == "prior" else (lambda: dict(u=pt.as_tensor_variable(np.array([0.4, 0.2]))))
    if cell["data"] == "two":
        out["two"] = lambda: dict(u2=d.quad_limb_dark("u2", initval=[0.3, 0.1]), s=pm.LogNormal("s", -1.0, 0.3, initval=0.4))
    if cell["npl"] == 1:
        out.update(planet(cell, lambda x: float(np.asarray(x)[0]), {}, "", 0))
    elif cell["npl"] == 2:
        out.update(planet(cell, np.asarray, dict(shape=2), "", None))
    else:
        # one set of variables per planet: components of the same kind live together in one model
        for i, suf in enumerate(("_b", "_c")):
            out.update(planet(cell, lambda x, i=i: float(np.asarray(x)[i]), {}, suf, i))
    return out


def planet(cell, v, sh, suf, i):
    """The components of one planet (or of both, as vectors)."""
    d = xo.distributions
    ec = d.eccentricity
    out = {}
    out["time"] = lambda: dict(period=pm.Normal("period" + suf, v(P0), 0.1, initval=v(P0), **sh), t0=pm.Normal("t0" + suf, v(E0), 0.1, initval=v(E0), **sh))
    if cell["orbit"] == "duration":
        out["dur"] = lambda: dict(duration=pm.LogNormal("duration" + suf, np.log(v([0.14, 0.17])), 0.1, initval=v([0.14, 0.17]), **sh))

    def size():
        r = {}
        if cell["size"] == "fixed":
            r["ror"] = v([0.12, 0.08])
        elif cell["size"] == "uniform":
            r["ror"] = pm.Uniform("ror" + suf, 0.01, 0.3, initval=v([0.12, 0.08]), **sh)
        else:
            r["delta"] = pm.LogNormal("delta" + suf, np.log(0.01), 0.3, initval=v([0.012, 0.007]), **sh)
        if cell["b"] == "uniform" or (cell["b"] == "prior" and cell["size"] == "depth"):
            r["b"] = pm.Uniform("b" + suf, 0.0, 0.9, initval=v([0.3, 0.5]), **sh)
        elif cell["b"] == "prior":
            r["b"] = d.impact_parameter("b" + suf, r["ror"], initval=v([0.3, 0.5]), **sh)
        else:
            r["b"] = v([0.35, 0.1])
        return r
    out["size"] = size
    if cell["ecc"] != "none":
        def ecc():
            k = cell["ecc"]
            if k == "disk":
                init = np.array([[0.4, 0.3], [0.25, -0.35]])
                h, q = d.unit_disk("h" + suf, "q" + suf, initval=init if i is None else init[:, i], **sh)
                return dict(ecc=h**2 + q**2, omega=pt.arctan2(q, h))
            init = v([0.2, 0.15])
            if k == "mix":
                e = ec.vaneylen19("ecc" + suf, fixed=True, upper=0.8, initval=init, **sh)
            else:
                e = ec.kipping13("ecc" + suf, fixed=k == "beta", upper=0.8, initval=init, **sh)
            return dict(ecc=e)
        out["ecc"] = ecc
        if cell["ecc"] != "disk":
            out["omega"] = lambda: dict(omega=d.angle("omega" + suf, initval=v([0.7, -2.0]), **sh))
    if cell["data"] in ("rv", "both"):
        out["K"] = lambda: dict(K=pm.LogNormal("K" + suf, 2.0, 0.4, initval=v([7.0, 4.0]), **sh))
    return {k + suf: (lambda f=f: {x + suf: y for x, y in f().items()}) for k, f in out.items()}


def orbit_of(cell, q):
    kw = dict(period=q["period"], t0=q["t0"], r_star=q["r_star"], b=q["b"])
    if "ecc" in q:
        kw["ecc"] = q["ecc"]
        if cell["ecc"] == "mix":
            kw.update(sin_omega=pt.sin(q["omega"]), cos_omega=pt.cos(q["omega"]))
        else:
            kw["omega"] = q["omega"]
    for k in ("m_star", "rho_star", "duration"):
        if k in q:
            kw[k] = q[k]
    if cell["orbit"] == "duration":
        kw["ror"] = q["ror"]
    if cell["orbit"] == "ttv":
        kw["ttvs"] = [q["ttv%d" % i] for i in range(1 if cell["npl"] == 1 else 2)]
        if cell["npl"] == 1:
            kw = {k: (x if k in ("r_star", "m_star", "ttvs") else pt.stack([x])) for k, x in kw.items()}
        return xo.orbits.TTVOrbit(**kw)
    return xo.orbits.KeplerianOrbit(**kw)


def build(cell):
    """(outer model, prefix of its variables, parameters, predictions)."""
    pre = "sub::" if cell["nest"] == "named" else ""
    y, yv = data()
    with pm.Model() as outer:
        if cell["nest"] == "plain":
            q, mu = inside(cell, y, yv)
        else:
            with pm.Model(name="sub" if pre else ""):
                q, mu = inside(cell, y, yv)
    return outer, pre, q, mu


def data():
    k = np.arange(len(T))
    return 0.003 * np.sin(1.7 * k), 4.0 * np.sin(0.9 * k)


def inside(cell, y, yv):
    q = {}
    for f in parts(cell).values():
        q.update(f())
    if cell["npl"] == "apart":
        for k in [k[:-2] for k in q if k.endswith("_b")]:
            both = [q.pop(k + "_b"), q.pop(k + "_c")]
            q[k] = pt.stack(both) if any(hasattr(x, "owner") for x in both) else np.array(both)
    lc = xo.LimbDarkLightCurve(q["u"][0], q["u"][1])
    if "delta" in q:
        q["ror"] = lc.get_ror_from_approx_transit_depth(q["delta"], q["b"])
    orbit = orbit_of(cell, q)
    mu = {}
    if cell["data"] != "rv":
        kw = dict(texp=TEXP, oversample=3, order=1) if cell["data"] == "texp" else {}
        if cell["data"] == "two":
            ecl = xo.SecondaryEclipseLightCurve([q["u"][0], q["u"][1]], [q["u2"][0], q["u2"][1]], q["s"])
            f = ecl.get_light_curve(orbit=orbit, r=q["ror"] * q["r_star"], t=T)
        else:
            r = q["ror"] * q["r_star"]
            f = lc.get_light_curve(orbit=orbit, r=pt.stack([r]) if cell["orbit"] == "ttv" and cell["npl"] == 1 else r, t=T, **kw)
        mu["flux"] = pt.sum(f, axis=-1)
        pm.Normal("obs", mu["flux"], SIG, observed=y)
    if cell["data"] in ("rv", "both"):
        K = q["K"]
        v = orbit.get_radial_velocity(T, K=pt.stack([K]) if cell["orbit"] == "ttv" and cell["npl"] == 1 else K)
        mu["velocity"] = v if cell["npl"] == 1 else pt.sum(v, axis=-1)
        pm.Normal("rv", pt.reshape(mu["velocity"], (len(T),)), 3.0, observed=yv)
    return q, mu


def reference(cell, q):
    n = 1 if cell["npl"] == 1 else 2
    g = {k: np.atleast_1d(np.asarray(x, float)) for k, x in q.items()}
    P, t0, rs, b = g["period"], g["t0"], g["r_star"], g["b"] * np.ones(n)
    e, w = (g["ecc"], g["omega"]) if "ecc" in g else (np.zeros(n), np.zeros(n))
    if cell["ecc"] == "disk":
        w = np.arctan2(np.sin(w), np.cos(w))
    u = g["u"]
    if "delta" in g:
        m = np.sqrt(1 - b**2)
        ror = np.sqrt(g["delta"] * (1 - u[0] / 3 - u[1] / 6) / (1 - u[0] * (1 - m) - u[1] * (1 - m) ** 2))
    else:
        ror = g["ror"] * np.ones(n)
    if cell["orbit"] == "duration":
        D = g["duration"]
        a = rs * np.sqrt((1 + ror) ** 2 - b**2 * np.cos(np.pi * D / P) ** 2) / np.sin(np.pi * D / P)
    else:
        ms = g["m_star"] if "m_star" in g else g["rho_star"] / GCC * 4 * np.pi / 3 * rs**3
        a = semi_major(P, ms)
    ci = b * rs / (a * (1 - e**2) / (1 + e * np.sin(w)))
    tp = t_peri_from_t0(t0, P, e, w)
    ref = RefOrbit(P, a, e, w, tp, ci, np.sqrt(1 - ci**2), 0.0)
    edge = RefOrbit(P, a, e, w, tp, 0.0, 1.0, 0.0)

    def warp(t):
        t = np.asarray(t)[..., None] + np.zeros(n)
        if cell["orbit"] == "ttv":
            for j in range(n):
                x = q["ttv%d" % j]
                lab = t0[j] + P[j] * np.arange(len(x)) + x
                t[..., j] = t[..., j] - lab[np.searchsorted((lab[1:] + lab[:-1]) / 2, t[..., j])] + t0[j]
        return t

    def flux(t):
        x, y, z = ref.rel(warp(t))[0]
        d = np.hypot(x, y) / rs
        k = np.broadcast_to(ror, d.shape)
        out = np.zeros(d.shape)
        m = (z > 0) & (d < 1 + k)
        out[m] = blocked_flux(u[0], u[1], d[m], k[m])
        if cell["data"] == "two":
            o2 = np.zeros(d.shape)
            m = (z < 0) & (d < 1 + k)
            o2[m] = blocked_flux(g["u2"][0], g["u2"][1], d[m] / k[m], 1 / k[m])
            s = g["s"] * ror**2
            out = (out + s * o2) / (1 + s)
        return np.sum(out, -1)
    mu = {}
    if cell["data"] == "texp":
        off, wt = nodes(1, 3)
        mu["flux"] = np.sum([wi * flux(T + TEXP * o) for o, wi in zip(off, wt)], axis=0)
    elif cell["data"] != "rv":
        mu["flux"] = flux(T)
    if cell["data"] in ("rv", "both"):
        vz = edge.rel(warp(T))[1][2] / (a * 2 * np.pi / P / np.sqrt(1 - e**2))
        mu["velocity"] = np.sum(g["K"] * vz, -1)
    return mu


def run(c, cell):
    th = cell["tier"] == "thorough"
    outer, pre, q, mu = build(cell)
    vv = list(outer.value_vars)
    names = [v.name for v in vv]
    ip = outer.initial_point()
    keys = [k for k, x in q.items() if hasattr(x, "owner") and k not in ("ror",) or k == "ror" and cell["size"] != "depth" and hasattr(x, "owner")]
    fixed = {k: np.asarray(x) for k, x in q.items() if k not in keys and not hasattr(x, "owner")}
    outs = outer.replace_rvs_by_values([q[k] for k in keys] + list(mu.values()))
    lp = outer.logp()
    f = fn(vv, [lp] + outs)
    fg = fn(vv, pytensor.grad(lp, vv))
    alone, seen = [], []
    for name, make in parts(cell).items():
        with pm.Model() as m:
            make()
        own = [v.name for v in m.value_vars]
        if not own:
            continue
        # the names of the joint model are those of the part, with the prefix of the named model
        joint = [pre + x for x in own]
        if not c.expect(all(j in names for j in joint), "names of the sampled variables", got=names, want=joint):
            return
        i0 = m.initial_point()
        for a, j in zip(own, joint):
            c.close("starting point of the part", ip[j], i0[a], 1e-12 * (1 + np.abs(i0[a])))
        alone.append((joint, fn(list(m.value_vars), m.logp())))
        seen += joint
    c.expect(sorted(seen) == sorted(names), "exactly the variables of the parts are sampled", got=sorted(names), want=sorted(seen))
    shapes = [np.shape(ip[k]) for k in names]
    sizes = [int(np.prod(s, dtype=int)) for s in shapes]
    z0 = np.concatenate([np.ravel(ip[k]) for k in names])
    scale = np.concatenate([np.full(n, 0.02 if k.endswith(("period", "t0", "period_b", "t0_b", "period_c", "t0_c")) else (0.1 if "ttv" in k else 0.4)) for k, n in zip(names, sizes)])
    N = len(z0)
    split = (lambda z: [z[o:o + n].reshape(s) for o, n, s in zip(np.cumsum([0] + sizes), sizes, shapes)])
    y, yv = data()
    walk = [()] + [((i, s),) for i in range(N) for s in (-1, 1)]
    walk += [((i, s), (j, r)) for i in range(N) for j in (range(i + 1, N) if th else [(i + 1) % N]) for s, r in ((1, 1), (1, -1), (-1, 1), (-1, -1))[:: 1 if th else 3] if i != j]
    for ib, base in enumerate((z0, z0 + scale * 0.5 * np.cos(1 + 2.3 * np.arange(N)))):
        for mv in walk:
            z = base.copy()
            for i, s in mv:
                z[i] += s * scale[i]
            vals = split(z)
            r = f(*vals)
            got = dict(zip(keys, r[1:1 + len(keys)]))
            pred = dict(zip(mu, r[1 + len(keys):]))
            with np.errstate(all="ignore"):
                ref = reference(cell, {**fixed, **got})
            by = dict(zip(names, vals))
            want = sum(float(g(*[by[k] for k in ks])) for ks, g in alone)
            slack = 0.0
            e = float(np.max(got["ecc"])) if "ecc" in got else 0.0
            for k, x in ref.items():
                bad = ~np.isfinite(x)
                tol = 3e-7 if k == "flux" else 4e-5 * float(np.sum(got["K"])) / (1 - e) ** 2
                c.close("predicted " + k, np.asarray(pred[k]).reshape(-1), x, tol, coords=dict(t=T))
                s, d = (SIG, y) if k == "flux" else (3.0, yv)
                want += float(np.sum(stats.norm.logpdf(d, x, s)))
                slack += float(np.sum(np.abs(d - x)) / s**2 * tol)
                c.outcome("in transit" if k == "flux" and np.any(x < 0) else k)
                assert not bad.any()
            c.close("joint log density is the sum of its parts", float(r[0]), want, 1e-8 * (1 + abs(want)) + slack, coords=dict(moves=str(mv)))
            c.state((ib, mv))
            c.step()
        c.trace()
        g = np.concatenate([np.ravel(x) for x in fg(*split(base))])
        c.expect(np.all(np.isfinite(g)), "finite gradient", got=dict(zip(names, split(g))))
        h = 1e-6
        num = np.array([(float(f(*split(base + h * d))[0]) - float(f(*split(base - h * d))[0])) / (2 * h) for d in np.eye(N)])
        c.close("gradient of the joint log density", g, num, 2e-3 + 2e-5 * np.max(np.abs(num)), coords=dict(i=np.arange(N)))
    c.sample(variables=names, logp=want)
