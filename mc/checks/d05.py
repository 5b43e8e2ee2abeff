import numpy as np
from scipy import stats

from mc.core import product
from mc.dist import Pushed, pm, walks
from mc.env import fn, pt, xo

RULE = ("cell = (fixed or marginalized, population, bounds, shape, sampled or observed); model state = (element, eccentricity, hyperparameters); transition = "
        "moving to the next eccentricity or hyperparameter; trace = the walk over all of them, the model's log density being compared with SciPy's")
BOUNDS = ("{fixed, marginalized} x {all, long, short} x 7 pairs of bounds x 7 shapes/starting points sampled plus 5 observed forms x 11-15 eccentricities x "
          "11 values of each hyperparameter (thorough: 3 times finer)")
PAR = {None: (1.12, 0.1, 3.09, 0.3), True: (1.12, 0.1, 3.09, 0.3), False: (0.697, 0.4, 3.27, 0.3)}
BD = [[None, None], [0.1, None], [None, 0.4], [0.1, 0.4], [0.0, 1.0], [0.5, 0.9], [0.0, 0.05]]
SAMPLED = {"scalar": dict(), "3": dict(shape=3), "(2,)": dict(shape=(2,)), "(2,2)": dict(shape=(2, 2)), "init": "init", "testval": "testval", "init2": "init2"}
OBS = ["number", "vector", "matrix", "rv", "data"]


def cells(tier):
    out = product(fixed=[True, False], long=[None, True, False], bounds=BD, form=list(SAMPLED) + OBS)
    return [dict(x, tier=tier) for x in out if not (x["form"] == "testval" and x["bounds"] == [None, None])]


def trunc(x, mu, sd, lo=0.0, hi=np.inf):
    return stats.norm.logpdf(x, mu, sd) - np.log(stats.norm.cdf(hi, mu, sd) - stats.norm.cdf(lo, mu, sd))


def run(c, cell):
    fixed, form, th = cell["fixed"], cell["form"], cell["tier"] == "thorough"
    am, asd, bm, bsd = PAR[cell["long"]]
    lo, hi = cell["bounds"]
    bounded = lo is not None or hi is not None
    l, h = (0.0 if lo is None else lo), (1.0 if hi is None else hi)
    bkw = {} if not bounded else {k: v for k, v in (("lower", lo), ("upper", hi)) if v is not None}
    kw = dict(fixed=fixed, long=cell["long"], **bkw)
    eo = np.array([-0.2, -1e-9, 0.02, 0.1, 0.1 + 1e-9, 0.25, 0.4, 0.45, 0.55, 0.85, 0.95, 1 + 1e-9, 1.3])
    if form in OBS:
        return observed(c, cell, kw, eo, l, h)
    skw = SAMPLED[form]
    init = None
    shape = ()
    if skw in ("init", "testval"):
        init = l + 0.3 * (h - l)
        skw = {("initval" if skw == "init" else "testval"): init}
    elif skw == "init2":
        init = np.array([l + 0.2 * (h - l), l + 0.9 * (h - l)])
        skw, shape = dict(shape=2, initval=init), (2,)
    else:
        shape = np.shape(np.zeros(skw.get("shape", ())))
    with pm.Model() as m:
        v = xo.distributions.eccentricity.kipping13("ecc", **kw, **skw)
    c.expect(v is m["ecc"], "the returned variable is the named one")
    names = ["ecc"] + ([] if fixed else ["ecc::alpha", "ecc::beta"])
    P = Pushed(m, names)
    c.expect(P.oshapes[0] == shape, "shape", got=P.oshapes[0], want=shape)
    n = int(np.prod(shape, dtype=int))
    nh = 0 if fixed else 2
    if not c.expect(P.jac and P.dim == n + nh, "one sampling dimension per eccentricity and hyperparameter", got=P.dim):
        return
    e0 = P(P.start())[2][0]
    c.expect(np.all((e0 > l) & (e0 < h)), "starting point within the bounds", got=e0)
    if init is not None:
        c.close("starting point", e0, np.broadcast_to(init, shape), 1e-9)
    if not fixed:
        c.expect(all(float(x) > 0 for x in P(P.start())[2][1:]), "hyperparameters start positive")
    vals = np.array([-9, -5, -3, -1.5, -0.4, 0, 0.7, 1.6, 3, 5, 9.0])
    if th:
        vals = np.concatenate([vals, np.linspace(-7.3, 7.1, 23)])
    zs, N = walks(n, vals, 1)
    # the value variables of the hyperparameters are created before the eccentricity; both are positive (log) coordinates
    hyp = [()] if fixed else [(x, y) for x in (vals if th else vals[1::2]) / 5 for y in (vals if th else vals[::2]) / 8 + 1]
    order = [P.vv.index(m.rvs_to_values[m[q]]) for q in names]
    for hy in hyp:
        for z in (zs if fixed else zs[:: (3 if not th else 1)]):
            parts = dict(zip(order, [z] + [[q] for q in hy]))
            lp, dens, outs = P(np.concatenate([parts[i] for i in range(len(order))]))
            e = outs[0]
            a, b = (am, bm) if fixed else (float(outs[1]), float(outs[2]))
            want = np.sum(stats.beta.logpdf(e, a, b)) - n * np.log(stats.beta.cdf(h, a, b) - stats.beta.cdf(l, a, b))
            if not fixed:
                c.expect(a > 0 and b > 0, "positive hyperparameters", got=[a, b])
                want += trunc(a, am, asd) + trunc(b, bm, bsd)
            c.expect(np.all((e >= l) & (e <= h)), "within the bounds", got=e)
            c.close("log density", dens, want, 1e-6 * (1 + n + abs(want)))
    for i in range(n):
        c.lattice(np.full((1, 1, 1), i), np.arange(len(hyp))[None, :, None], vals, traces=1)
    c.outcome("bounded" if bounded else "unbounded", len(hyp) * N)
    # the density at given eccentricities, including outside the bounds
    if fixed and n == 1:
        x = pt.dscalar()
        f = fn([x], pm.logp(m["ecc"], x if shape == () else pt.stack([x]).reshape(shape)).sum())
        s = np.array([float(f(q)) for q in eo])
        check_values(c, s, eo, am, bm, l, h)
    c.sample(ecc=e, want=want)


def check_values(c, got, e, a, b, l, h, extra=0.0):
    with np.errstate(all="ignore"):
        want = stats.beta.logpdf(e, a, b) - np.log(stats.beta.cdf(h, a, b) - stats.beta.cdf(l, a, b))
    inside = (e >= l) & (e <= h) & (e > 0) & (e < 1)
    edge = (e == l) | (e == h)
    want = np.where(inside, want, -np.inf) + extra
    c.close("log density of given values", got[~edge], want[~edge], 1e-8 * (1 + np.abs(np.where(np.isfinite(want), want, 0)))[~edge], coords=dict(e=e[~edge]))
    c.outcome("outside", np.count_nonzero(~inside))
    c.outcome("inside", np.count_nonzero(inside))


def observed(c, cell, kw, eo, l, h):
    fixed, form = cell["fixed"], cell["form"]
    am, asd, bm, bsd = PAR[cell["long"]]
    hyp = [(am, bm)] if fixed else [(x, y) for x in (0.3, 0.9, am, 1.7) for y in (1.5, bm, 4.0)]
    inner = eo[(eo > l) & (eo < h)]
    if form == "number":
        vals = [np.array(x) for x in (eo if fixed else eo[1::3])]
    elif form == "matrix":
        vals = [np.resize(inner, (2, 3)), np.resize(eo, (7, 2))]
    else:
        vals = [eo, inner]
    for val in vals:
        with pm.Model() as m:
            obs, nx = val, 0.0
            if form == "number":
                obs = float(val)
            elif form == "rv":
                obs = pm.Normal("x", 0.0, 1.0, shape=val.shape)
            elif form == "data":
                obs = pm.Data("dat", val)
            xo.distributions.eccentricity.kipping13("ecc", observed=obs, **kw)
        lps = m.logp(jacobian=False, sum=False)
        tot = m.logp(jacobian=False)
        f = fn(list(m.value_vars), [tot] + list(lps))
        for a, b in hyp:
            pt_ = {}
            for v in m.value_vars:
                if v.name.startswith("x"):
                    pt_[v.name] = val
                    nx = np.sum(stats.norm.logpdf(val))
                else:
                    pt_[v.name] = np.log(a if "alpha" in v.name else b)
            r = f(*[pt_[v.name] for v in m.value_vars])
            with np.errstate(all="ignore"):
                lw = stats.beta.logpdf(val, a, b) - np.log(stats.beta.cdf(h, a, b) - stats.beta.cdf(l, a, b))
            lw = np.where((val > 0) & (val < 1) & (val >= l) & (val <= h), lw, -np.inf)
            if np.any((val == l) | (val == h)):
                lw = None
            else:
                want = np.sum(lw) + nx
                if not fixed:
                    want += trunc(a, am, asd) + trunc(b, bm, bsd)
                c.close("total log density of the observed values", r[0], want, 1e-8 * (1 + (abs(want) if np.isfinite(want) else 0)), coords=dict(alpha=a, beta=b))
                c.outcome("outside" if not np.isfinite(want) else "inside")
            c.state((np.asarray(val).tobytes(), a, b))
            c.step(np.size(val))
            c.trace()
    c.sample(observed=vals[-1])
