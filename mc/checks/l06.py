import numpy as np

from mc.core import grid, product
from mc.env import ev, fn, pt, pytensor, xo
from mc.ref import blocked_flux

RULE = ("cell = (limb-darkening pair, shape and kind of the inputs); model state = (depth, impact parameter); transition = moving one step along the "
        "impact parameter; trace = one depth swept over the impact parameters, inverted by the code and turned back into a depth by the model")
BOUNDS = "13 limb-darkening pairs x 9 depths 1e-10..0.5 x 15 impact parameters in (-1, 1) x scalar/vector/matrix/list/symbolic inputs, with and without Jacobian"
LD = [(0.0, 0.0), (0.3, 0.2), (0.6, 0.1), (1.0, 0.0), (0.0, 0.9), (1.8, -0.9), (0.1, -0.05), (0.0, 0.4), (1.2, -0.5), (0.5, 0.4), (0.9, -0.3), (0.25, 0.7), (0.05, 0.9)]
DEL = [1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5]
BS = [0.0, 0.1, -0.1, 0.3, -0.45, 0.5, 0.6, -0.7, 0.8, 0.9, -0.95, 0.99, 0.999, -0.9999, 1e-8]


def cells(tier):
    return product(ld=[list(x) for x in LD], form=["vector", "matrix", "scalar", "mixed", "list", "symbolic", "length-1"])


def depth(u, ror, b):
    mu = np.sqrt(1 - b * b)
    local = 1 - u[0] * (1 - mu) - u[1] * (1 - mu) ** 2
    return ror**2 * local / (1 - u[0] / 3 - u[1] / 6)


def run(c, cell):
    u, form = cell["ld"], cell["form"]
    lc = xo.LimbDarkLightCurve(*u)
    d, b = grid(DEL, BS)
    runs = []
    if form == "vector":
        runs = [(d, b, d, b)]
    elif form == "matrix":
        D, Bm = d.reshape(len(DEL), -1), b.reshape(len(DEL), -1)
        runs = [(D, Bm, D, Bm)]
    elif form == "list":
        runs = [(d.tolist(), b.tolist(), d, b)]
    elif form == "scalar":
        runs = [(float(x), float(y), np.array(x), np.array(y)) for x, y in zip(d[::4], b[::4])]
    elif form == "length-1":
        runs = [(np.array([x]), np.array([y]), np.array([x]), np.array([y])) for x, y in zip(d[::9], b[::9])]
    elif form == "mixed":
        runs = [(float(x), np.array(BS), np.full(len(BS), x), np.array(BS)) for x in DEL]
    if form == "symbolic":
        vd, vb = pt.dvector(), pt.dvector()
        ror, jac = lc.get_ror_from_approx_transit_depth(vd, vb, jac=True)
        F = fn([vd, vb], [ror, jac, pytensor.grad(pt.sum(ror), vd)])
        r, j, g = F(d, b)
        check(c, u, d, b, r, j)
        c.close("Jacobian against the gradient", j, g, 1e-9 * np.abs(g))
    for ad, ab, nd, nb in runs:
        r, j = ev(list(lc.get_ror_from_approx_transit_depth(ad, ab, jac=True)))
        alone = ev(lc.get_ror_from_approx_transit_depth(ad, ab))
        c.close("without the Jacobian", alone, r, 1e-14 * np.abs(r))
        check(c, u, nd, nb, r, j)
    c.sample(u=u, delta=d[40], b=b[40])


def check(c, u, d, b, r, j):
    c.expect(np.shape(r) == np.shape(b) and np.shape(j) == np.shape(b), "shape of the impact parameter", got=[np.shape(r), np.shape(j)], want=np.shape(b))
    if np.shape(r) != np.shape(b):
        return
    c.expect(np.all(r > 0) and np.all(np.isfinite(r)), "positive radius ratio")
    c.close("depth of the returned radius ratio", depth(u, r, b), d, 1e-11 * d, dict(d=d, b=b))
    # central difference of the exact inverse: ror = sqrt(d * factor)
    c.close("Jacobian", j, 0.5 * r / d, 1e-10 * r / d, dict(d=d, b=b))
    sm = (np.abs(b) + 3 * r < 0.9) & (r < 0.01) & (r > 1e-4)
    if np.any(sm):
        f = -blocked_flux(u[0], u[1], np.asarray(b)[sm], np.asarray(r)[sm])
        c.close("depth of the full light curve for small planets", f, np.asarray(d)[sm], 3e-3 * np.asarray(d)[sm])
        got = -ev(xo.LimbDarkLightCurve(*u)._compute_light_curve(np.asarray(b)[sm], np.asarray(r)[sm]))
        c.close("depth of the light curve for small planets", got, np.asarray(d)[sm], 3e-3 * np.asarray(d)[sm] + 1e-9)
        c.outcome("small planets", int(np.sum(sm)))
    c.lattice(np.asarray(d), np.asarray(b), traces=1)
    c.outcome("inverted", np.size(b))
