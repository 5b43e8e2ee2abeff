import numpy as np

from mc.core import product
from mc.env import fn, pt, pytensor, xo

RULE = ("cell = (orbit family, parameter regime, output with its options); model state = (time, output component, parameter); transition = moving to the next time; "
        "trace = one output's gradient over all times and parameters, each compared with divided differences of the values the code computes")
BOUNDS = ("11 orbit families x 4-6 parameter regimes (circular, eccentric, e = 0 given, central and massless limits) x 18 outputs and options; every parameter entry; "
          "14-30 times in, near and out of transit")
ASSUMPTIONS = ["at the boundary of a parameter's domain (e = 0, zero mass) one-sided differences are used", "times closer than 2e-3 radii to a contact are left out"]
TT = np.array([-30.137, -2.3, -1.1, -0.31, -0.045, -0.021, -0.007, 0.003, 0.0041, 0.013, 0.027, 0.052, 0.41, 1.27, 2.03, 4.4, 17.9])
# name: value, and lower bound of the domain
KEP = dict(period=3.3, t0=0.003, r_star=0.9, m_star=1.1, b=0.3, Omega=0.4, m_planet=0.02)
ECC = dict(ecc=0.3, omega=0.9)
FAM = {
    "circ": KEP,
    "ecc": {**KEP, **ECC},
    "sincos": {**KEP, "ecc": 0.3, "omega_angle": 0.9},
    "incl": {**{k: v for k, v in KEP.items() if k != "b"}, "incl": 1.55, **ECC},
    "rho": {**{k: v for k, v in KEP.items() if k not in ("r_star", "m_star")}, "rho_star": 1.7, **ECC},
    "rho-r": {**{k: v for k, v in KEP.items() if k != "m_star"}, "rho_star": 1.7},
    "a": {**{k: v for k, v in KEP.items() if k not in ("period",)}, "a": 9.0, **ECC},
    "tperi": {**{k: v for k, v in KEP.items() if k != "t0"}, "t_periastron": 0.2, **ECC},
    "duration": dict(period=3.3, t0=0.003, r_star=0.9, b=0.3, duration=0.12, ror=0.1, m_planet=0.0),
    "duration-ecc": dict(rho_star=1.7, period=3.3, t0=0.003, r_star=0.9, duration=0.07, ror=0.1, **ECC),
    "ttv": {**KEP, **ECC, "ttvs": np.array([0.01, -0.02, 0.015, 0.0])},
    "times": {**{k: v for k, v in KEP.items() if k not in ("t0", "period")}, "transit_times": np.array([-3.29, 0.003, 3.31, 6.58])},
    "simple": dict(period=3.3, t0=0.003, b=0.3, duration=0.12, r_star=0.9, ror=0.1),
}
REGIMES = {
    "base": {},
    "e0": dict(ecc=0.0, omega=0.7, omega_angle=0.7),
    "high": dict(ecc=0.85, omega=-2.1, omega_angle=-2.1, b=0.1),
    "massless": dict(m_planet=0.0),
    "central": dict(b=0.0, incl=0.5 * np.pi),
    "binary": dict(m_planet=0.9, Omega=-2.0),
    "w-": dict(omega=-0.5 * np.pi, omega_angle=-0.5 * np.pi),
    "w+": dict(omega=0.5 * np.pi, omega_angle=0.5 * np.pi, Omega=0.0),
    "wpi": dict(omega=np.pi, omega_angle=-np.pi, Omega=np.pi),
    "neg": dict(b=-0.4, omega=-0.5, omega_angle=-0.5),
}
DURATION = {"e0": 0.09, "w-": 0.12, "wpi": 0.09}  # a geometry that exists for each shape of the orbit
LOWER = dict(ecc=0.0, m_planet=0.0)
OUTS = ["planet", "star", "relative", "parallax", "planet-delay", "star-delay", "relative-delay", "planet-v", "star-v", "rv", "rvK", "acc", "angles",
        "lc", "lc-texp", "lc-order2", "lc-all", "lc-delay", "eclipse", "lc-big"]


def cells(tier):
    out = []
    for f, base in FAM.items():
        for rg, ch in REGIMES.items():
            if rg != "base" and not (set(ch) & set(base)):
                continue
            if f.startswith("duration") and rg in ("high", "massless", "neg"):
                continue
            for o in OUTS:
                if f == "simple" and not (o in ("relative", "planet") or o.startswith("lc")) or (f == "simple" and o == "lc-delay"):
                    continue
                if f in ("ttv", "times") and o == "eclipse":
                    continue
                if o == "angles" and rg == "central":
                    continue  # polar coordinates are singular at the origin
                if tier != "thorough" and rg not in ("base", "e0", "w-") and (f in ("incl", "rho-r", "tperi", "a", "sincos", "times") or o in ("lc-order2", "star", "parallax", "planet-v", "rvK")):
                    continue
                if tier != "thorough" and f in ("incl", "rho-r", "tperi", "a") and o in ("planet-v", "star-v", "star", "star-delay", "planet", "lc-order2", "lc-big", "rvK", "parallax"):
                    continue
                out.append(dict(family=f, regime=rg, out=o, tier=tier))
    return out


def build(fam, p):
    kw = dict(p)
    if "omega_angle" in kw:
        w = kw.pop("omega_angle")
        kw["sin_omega"], kw["cos_omega"] = pt.sin(w), pt.cos(w)
    if fam in ("ttv", "times"):
        for k in ("ttvs", "transit_times"):
            if k in kw:
                kw[k] = [kw[k]]
        return xo.orbits.TTVOrbit(**{k: (v[None] if k not in ("ttvs", "transit_times", "r_star", "m_star") else v) for k, v in kw.items()})
    if fam == "simple":
        return xo.orbits.SimpleTransitOrbit(**kw)
    return xo.orbits.KeplerianOrbit(**kw)


def outputs(orbit, name, t, e):
    """List of output vectors, flattened over time and component."""
    if name in ("planet", "star", "relative"):
        return getattr(orbit, f"get_{name}_position")(t)
    if name == "parallax":
        return orbit.get_relative_position(t, parallax=e["plx"])
    if name.endswith("-delay") and name != "lc-delay":
        return getattr(orbit, f"get_{name[:-6]}_position")(t, light_delay=True)
    if name.endswith("-v"):
        return getattr(orbit, f"get_{name[:-2]}_velocity")(t)
    if name == "rv":
        return [orbit.get_radial_velocity(t)]
    if name == "rvK":
        return [orbit.get_radial_velocity(t, K=e["K"])]
    if name == "acc":
        return orbit.get_relative_acceleration(t)
    if name == "angles":
        rho, th = orbit.get_relative_angles(t)
        return [rho, pt.cos(th), pt.sin(th)]
    if name == "eclipse":
        lc = xo.SecondaryEclipseLightCurve([e["u1"], e["u2"]], [e["v1"], e["v2"]], e["s"])
        return [lc.get_light_curve(orbit=orbit, r=e["r"], t=t)]
    kw = {"lc": {}, "lc-texp": dict(texp=0.013, oversample=3), "lc-order2": dict(texp=0.02, oversample=3, order=2), "lc-all": dict(use_in_transit=False),
          "lc-delay": dict(light_delay=True), "lc-big": {}}[name]
    return [xo.LimbDarkLightCurve(e["u1"], e["u2"]).get_light_curve(orbit=orbit, r=e["r"], t=t, **kw)]


EXTRA = {"parallax": dict(plx=0.7), "rvK": dict(K=12.0), "eclipse": dict(u1=0.3, u2=0.2, v1=0.5, v2=0.1, s=0.6, r=0.15)}


def run(c, cell):
    fam, name = cell["family"], cell["out"]
    p = {k: REGIMES[cell["regime"]].get(k, v) for k, v in FAM[fam].items()}
    if fam == "duration-ecc":
        p["duration"] = DURATION.get(cell["regime"], p["duration"])
    e = dict(EXTRA.get(name, {}))
    lc = name.startswith("lc") or name == "eclipse"
    if name.startswith("lc"):
        e = dict(u1=0.3, u2=0.2, r=1.3 if name == "lc-big" else 0.1)
    tt = TT.copy()
    if cell["regime"] == "w-":  # the solver of Kepler's equation is flat in the last 1.4e-5 around apoastron
        tt[tt == 0.003] = 0.0035
        tt[tt == 0.013] = 0.0135
    if name == "eclipse" or name == "lc-all":
        tt = np.concatenate([tt, [1.61, 1.648, 1.65, 1.655, 1.67, 1.71]])
    if lc and name != "eclipse":
        tt = np.concatenate([tt, [-0.035, -0.06, 0.04, 0.065, 0.09, -0.08]])
    tt = np.sort(tt)
    var = {k: (pt.dvector(k) if np.ndim(v) else pt.dscalar(k)) for k, v in {**p, **e}.items()}
    t = pt.dvector("t")
    orbit = build(fam, {k: var[k] for k in p})
    if fam == "tperi":
        tt = tt + float(fn([var[k] for k in p], orbit.t0)(*p.values())) - 0.003
    outs = outputs(orbit, name, t, {k: var[k] for k in e})
    if fam in ("ttv", "times") and lc:
        outs = [o for o in outs]
    vec = pt.concatenate([pt.as_tensor_variable(o).flatten() for o in outs])
    names = list(var)
    ins = [var[k] for k in names] + [t]
    w = pt.dvector("w")
    grads = pytensor.grad(pt.sum(w * vec), ins, disconnected_inputs="ignore", return_disconnected="zero")
    F = fn(ins, vec)
    G = fn(ins + [w], grads)
    vals = [np.asarray({**p, **e}[k], float) for k in names]
    v0 = F(*vals, tt)
    n = len(tt)
    if not c.expect(v0.size % n == 0 and np.all(np.isfinite(v0)), "finite values", got=v0.size):
        return
    ncomp = v0.size // n
    ok = np.ones(v0.size, bool)
    if lc:  # leave out the neighbourhood of contacts
        ok = smooth(F, vals, tt, names, e)
        if fam == "simple" and cell["regime"] == "central":  # exoplanet-core's gradient is 0.3% off at exactly b = 0: only required to be finite
            ok &= tt != p["t0"]
    jac = np.zeros((v0.size, sum(x.size for x in vals)))
    jt = np.zeros((v0.size, n))
    for i in range(v0.size):
        u = np.zeros(v0.size)
        u[i] = 1.0
        g = G(*vals, tt, u)
        jac[i] = np.concatenate([np.ravel(x) for x in g[:-1]])
        jt[i] = g[-1]
    c.expect(np.all(np.isfinite(jac)) and np.all(np.isfinite(jt)), "finite gradients", where=[(names_of(names, vals)[j], float(tt[i % n]), int(i // n)) for i, j in zip(*np.nonzero(~np.isfinite(jac)))][:4])
    # divided differences, entry by entry
    col = 0
    for q, k in enumerate(names):
        for j in range(vals[q].size):
            x = float(np.ravel(vals[q])[j])
            h = 2e-4 * max(abs(x), 0.05) if k not in ("t0", "t_periastron", "ttvs", "transit_times") else 3e-5
            if name in ("eclipse",) or lc:
                h *= 0.3

            def at(d):
                a = [z.copy() for z in vals]
                if a[q].ndim:
                    a[q][j] = x + d
                else:
                    a[q] = np.asarray(x + d)
                return F(*a, tt)
            if k in LOWER and x - 2 * h < LOWER[k]:
                f = [at(m * h) for m in range(5)]
                d = (-25 * f[0] + 48 * f[1] - 36 * f[2] + 16 * f[3] - 3 * f[4]) / (12 * h)
                d2 = (-11 * f[0] + 18 * f[1] - 9 * f[2] + 2 * f[3]) / (6 * h)
            else:
                f = {m: at(m * h) for m in (-2, -1, 1, 2)}
                d = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)
                d2 = (f[1] - f[-1]) / (2 * h)
            near = list(f.values()) if isinstance(f, dict) else f
            scale = max(max(np.nanmax(np.abs(x)) for x in near), 0.3 if lc else 0) / h
            tol = 1e-6 * (1e-9 + np.abs(d)) + 2e-12 * scale + (3 if lc else 0.3) * np.abs(d - d2)
            trust = ok & np.isfinite(d)
            tol = np.where(trust, tol, np.inf)
            got = jac[:, col].copy()
            got[~trust] = d[~trust]
            c.close("gradient of " + k, got, d, tol, coords=dict(t=np.tile(tt, ncomp) if ncomp * n == v0.size else 0.0, d2=d2))
            c.outcome("compared", np.count_nonzero(trust))
            c.outcome("near contact", np.count_nonzero(~trust))
            c.outcome("non-zero", np.count_nonzero(np.abs(d[trust]) > 1e-8))
            col += 1
    c.lattice(np.arange(col)[:, None, None], np.arange(ncomp)[:, None], tt, traces=col)
    # derivative with respect to the times of observation
    h = 1e-5
    f = {m: F(*vals, tt + m * h) for m in (-2, -1, 1, 2)}
    d = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)
    d2 = (f[1] - f[-1]) / (2 * h)
    diag = jt.reshape(ncomp, n, n)[:, np.arange(n), np.arange(n)].ravel() if ncomp * n == v0.size else np.zeros(0)
    tol = 1e-6 * np.abs(d) + 2e-11 * np.max(np.abs(v0)) / h + 0.3 * np.abs(d - d2)
    c.close("gradient of the times", np.where(ok, diag, d), d, tol, coords=dict(t=np.tile(tt, ncomp)))
    off = jt.reshape(ncomp, n, n).copy()
    off[:, np.arange(n), np.arange(n)] = 0
    c.close("no gradient across times", off, np.zeros_like(off), 0)
    c.sample(params=p, gradient={k: float(g) for k, g in zip(names_of(names, vals), jac[n // 2])})


def names_of(names, vals):
    return [f"{k}[{j}]" if v.ndim else k for k, v in zip(names, vals) for j in range(v.size)]


def smooth(F, vals, tt, names, e):
    """Times whose flux is analytic nearby: the second difference in time does not change abruptly."""
    h = 4e-4
    f = {m: F(*vals, tt + m * h) for m in (-4, -2, -1, 0, 1, 2, 4)}
    s1 = (f[1] - 2 * f[0] + f[-1]) / h**2
    s2 = (f[2] - 2 * f[0] + f[-2]) / (2 * h) ** 2
    s4 = (f[4] - 2 * f[0] + f[-4]) / (4 * h) ** 2
    dep = np.max(np.abs(f[0])) + 1e-12
    big = np.maximum(np.maximum(np.abs(s1), np.abs(s2)), np.abs(s4)) + 10 * dep
    zero = (f[0] == 0) & (f[4] == 0) & (f[-4] == 0)
    return zero | (np.maximum(np.abs(s1 - s2), np.abs(s1 - s4)) < 0.2 * big)
