import numpy as np
from scipy import stats

from mc.core import product
from mc.dist import Pushed, pm, walks
from mc.env import fn, pt, xo

RULE = ("cell = (fixed or marginalized, population, bounds, shape, sampled or observed); model state = (element, eccentricity, hyperparameters); transition = "
        "moving to the next eccentricity or hyperparameter; trace = the walk over all of them, differences of the model's log density being compared with SciPy's")
BOUNDS = ("{fixed, marginalized} x {single, multi} x 7 pairs of bounds x 7 shapes/starting points sampled plus 5 observed forms x 11-13 eccentricities x "
          "5 values of each hyperparameter (thorough: 3 times finer)")
BD = [[None, None], [0.1, None], [None, 0.4], [0.1, 0.4], [0.0, 1.0], [0.5, 0.9], [0.0, 0.05]]
SAMPLED = {"scalar": dict(), "3": dict(shape=3), "(2,)": dict(shape=(2,)), "(2,2)": dict(shape=(2, 2)), "init": "init", "init2": "init2"}
OBS = ["number", "vector", "matrix", "rv", "data"]
HYP = [("sigma_gauss", 0.049, 0.02, np.inf), ("sigma_rayleigh", 0.26, 0.05, np.inf), ("frac", None, None, 1.0)]


def cells(tier):
    out = product(fixed=[True, False], multi=[False, True], bounds=BD, form=list(SAMPLED) + OBS)
    return [dict(x, tier=tier) for x in out]


def trunc(x, mu, sd, lo=0.0, hi=np.inf):
    return stats.norm.logpdf(x, mu, sd) - np.log(stats.norm.cdf(hi, mu, sd) - stats.norm.cdf(lo, mu, sd))


def mixture(e, sg, sr, frac):
    with np.errstate(all="ignore"):
        g = np.where(e >= 0, 2 * stats.norm.pdf(e, 0, sg), 0)
        r = np.where(e >= 0, e / sr**2 * np.exp(-0.5 * (e / sr) ** 2), 0)
        # in logs, for eccentricities deep in the tail of the half normal
        lg = np.log(2) + stats.norm.logpdf(e, 0, sg) + np.log(1 - frac)
        lr = np.log(e / sr**2) - 0.5 * (e / sr) ** 2 + np.log(frac)
        return np.where(e > 0, np.logaddexp(lg, lr), np.log((1 - frac) * g + frac * r))


def par(multi):
    return (0.08, 0.08) if multi else (0.76, 0.2)


def run(c, cell):
    fixed, form, th = cell["fixed"], cell["form"], cell["tier"] == "thorough"
    lo, hi = cell["bounds"]
    l, h = (0.0 if lo is None else lo), (1.0 if hi is None else hi)
    kw = dict(fixed=fixed, multi=cell["multi"], **{k: v for k, v in (("lower", lo), ("upper", hi)) if v is not None})
    fm, fs = par(cell["multi"])
    eo = np.array([-0.2, -1e-9, 0.02, 0.1 + 1e-9, 0.25, 0.45, 0.55, 0.85, 0.95, 1 + 1e-9, 1.3])
    if form in OBS:
        return observed(c, cell, kw, eo, l, h)
    skw, init, shape = SAMPLED[form], None, ()
    if skw == "init":
        init = l + 0.3 * (h - l)
        skw = dict(initval=init)
    elif skw == "init2":
        init = np.array([l + 0.2 * (h - l), l + 0.9 * (h - l)])
        skw, shape = dict(shape=2, initval=init), (2,)
    else:
        shape = np.shape(np.zeros(skw.get("shape", ())))
    with pm.Model() as m:
        v = xo.distributions.eccentricity.vaneylen19("ecc", **kw, **skw)
    c.expect(v is m["ecc"], "the returned variable is the named one")
    names = ["ecc"] + ([] if fixed else ["ecc::" + q[0] for q in HYP])
    P = Pushed(m, names)
    c.expect(P.oshapes[0] == shape, "shape", got=P.oshapes[0], want=shape)
    n = int(np.prod(shape, dtype=int))
    if not c.expect(P.jac and P.dim == n + len(names) - 1, "one sampling dimension per eccentricity and hyperparameter", got=P.dim):
        return
    start = P(P.start())[2]
    c.expect(np.all((start[0] > l) & (start[0] < h)), "starting point within the bounds", got=start[0])
    c.expect(np.isfinite(P(P.start())[0]), "finite density at the starting point")
    if init is not None:
        c.close("starting point", start[0], np.broadcast_to(init, shape), 1e-9)
    vals = np.array([-9, -5, -3, -1.5, -0.4, 0, 0.7, 1.6, 3, 5, 9.0])
    if th:
        vals = np.concatenate([vals, np.linspace(-7.3, 7.1, 23)])
    zs, N = walks(n, vals, 1)
    # log coordinates of the two widths, logit coordinate of the fraction
    hyp = [()]
    if not fixed:
        k = 5 if th else 3
        hyp = [(x, y, z) for x in np.log(np.linspace(0.01, 0.12, k)) for y in np.log(np.linspace(0.1, 0.4, k)) for z in np.linspace(-4, 4, k)]
    order = [P.vv.index(m.rvs_to_values[m[q]]) for q in names]
    off = None
    for hy in hyp:
        for z in (zs if fixed or th else zs[::2]):
            parts = dict(zip(order, [z] + [[q] for q in hy]))
            lp, dens, outs = P(np.concatenate([parts[i] for i in range(len(order))]))
            e = outs[0]
            sg, sr, fr = (0.049, 0.26, fm) if fixed else [float(x) for x in outs[1:]]
            want = np.sum(mixture(e, sg, sr, fr))
            if not fixed:
                c.expect(sg > 0 and sr > 0 and 0 <= fr <= 1, "hyperparameters in range", got=[sg, sr, fr])
                want += trunc(sg, 0.049, 0.02) + trunc(sr, 0.26, 0.05) + trunc(fr, fm, fs, 0, 1)
            c.expect(np.all((e >= l) & (e <= h)), "within the bounds", got=e)
            if off is None:
                off = dens - want
            c.close("log density up to a constant", dens - off, want, 1e-6 * (1 + n + abs(want)), coords=dict(sg=sg, sr=sr, frac=fr))
    for i in range(n):
        c.lattice(np.full((1, 1, 1), i), np.arange(len(hyp))[None, :, None], vals, traces=1)
    c.outcome("sampled", len(hyp) * N)
    c.sample(ecc=e, want=want)


def observed(c, cell, kw, eo, l, h):
    fixed, form = cell["fixed"], cell["form"]
    fm, fs = par(cell["multi"])
    hyp = [(0.049, 0.26, fm)] if fixed else [(x, y, z) for x in (0.02, 0.08) for y in (0.2, 0.33) for z in (0.05, 0.5, 0.9)]
    inner = np.array([l + q * (h - l) for q in (0.01, 0.2, 0.5, 0.77, 0.95)])
    if form == "number":
        vals = [np.array(x) for x in (np.concatenate([inner, eo]) if fixed else np.concatenate([inner[::2], eo[::4]]))]
    elif form == "matrix":
        vals = [np.resize(inner, (2, 3)), np.resize(inner[::-1], (2, 3)), np.resize(eo, (2, 3))]
    else:
        vals = [inner, inner**2 / h + l * (1 - inner / h), eo[:5]]
    off = None
    for val in vals:
        nx = 0.0
        with pm.Model() as m:
            obs = val
            if form == "number":
                obs = float(val)
            elif form == "rv":
                obs = pm.Normal("x", 0.0, 1.0, shape=val.shape)
            elif form == "data":
                obs = pm.Data("dat", val)
            xo.distributions.eccentricity.vaneylen19("ecc", observed=obs, **kw)
        f = fn(list(m.value_vars), m.logp(jacobian=False))
        for hy in hyp:
            p = {}
            for v in m.value_vars:
                if v.name.startswith("x"):
                    p[v.name] = val
                    nx = np.sum(stats.norm.logpdf(val))
                else:
                    sg, sr, fr = hy
                    p[v.name] = np.log(sg) if "gauss" in v.name else np.log(sr) if "rayleigh" in v.name else np.log(fr / (1 - fr))
            got = float(f(*[p[v.name] for v in m.value_vars]))
            c.state((np.asarray(val).tobytes(), hy))
            c.step(np.size(val))
            c.trace()
            if np.any((val < l) | (val > h) | (val < 0) | (val > 1)):
                c.expect(got == -np.inf, "zero density outside the bounds", got=got, at=val)
                c.outcome("outside")
                continue
            want = np.sum(mixture(val, *hy)) + nx
            if not fixed:
                want += trunc(hy[0], 0.049, 0.02) + trunc(hy[1], 0.26, 0.05) + trunc(hy[2], fm, fs, 0, 1)
            if off is None:
                off = (got - want) / np.size(val)
            c.close("log density of observed values up to a constant", got - off * np.size(val), want, 1e-8 * (1 + abs(want)), coords=dict(zip(("sg", "sr", "frac"), hy)))
            c.outcome("inside")
    c.sample(observed=vals[0], bounds=[l, h])
