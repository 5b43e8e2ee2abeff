import numpy as np

from mc.core import product
from mc.dist import Pushed, pm, walks
from mc.env import xo

RULE = ("cell = (shape, how the starting point is given); model state = (element, pair of sampling coordinates); transition = moving to the next pair; "
        "trace = the walk of one element over all pairs, the sampling density being pushed forward to (u1, u2) with the code's own Jacobian determinant")
BOUNDS = "13 shapes and starting points x every pair of 13 sampling coordinates in [-12, 12] for every element (thorough: 41 coordinates)"
FORMS = {
    "scalar": dict(), "()": dict(shape=()), "1": dict(shape=1), "3": dict(shape=3), "(2,)": dict(shape=(2,)), "(2,2)": dict(shape=(2, 2)),
    "init": dict(initval=[0.5, 0.25]), "init-neg": dict(initval=[0.6, -0.2]), "testval": dict(testval=[0.1, 0.8]),
    "init-array": dict(initval=np.array([1.2, -0.4])), "init2": dict(shape=2, initval=np.array([[0.5, 0.1], [0.2, 0.3]])),
    "init22": dict(shape=(2, 2), testval=np.array([[[0.5, 0.1], [0.2, 0.3]], [[0.1, 0.2], [0.7, -0.04]]])),
    "dims": dict(dims="p", initval=np.array([[0.3, 0.5], [0.1, 0.0]])),
}


def cells(tier):
    return product(form=list(FORMS), tier=[tier])


def run(c, cell):
    kw = FORMS[cell["form"]]
    with pm.Model(coords=dict(p=[0, 1])) as m:
        v = xo.distributions.quad_limb_dark("u", **kw)
    c.expect(v is m["u"], "the returned variable is the named one")
    P = Pushed(m, ["u"])
    shape = np.shape(np.zeros(kw.get("shape", () if "dims" not in kw else 2)))
    init = kw.get("initval", kw.get("testval"))
    if init is None:
        init = np.stack([np.full(shape, np.sqrt(0.5)), np.zeros(shape)])
    c.expect(P.oshapes == [(2,) + shape], "shape", got=P.oshapes, want=(2,) + shape)
    n = int(np.prod(shape, dtype=int))
    if not c.expect(P.dim == 2 * n and P.jac, "two sampling dimensions per pair", got=P.dim):
        return
    u0 = P(P.start())[2][0]
    c.close("starting point", u0, np.asarray(init), 1e-9)
    vals = np.array([-12, -5, -3, -2, -1, -0.4, 0, 0.3, 0.9, 2, 3.3, 6, 12.0])
    if cell["tier"] == "thorough":
        vals = np.concatenate([vals, np.linspace(-9.1, 9.3, 28)])
    zs, N = walks(2 * n, vals, 2)
    lo, hi = np.full(3, np.inf), np.full(3, -np.inf)
    for z in zs:
        z = np.concatenate([z[0::2], z[1::2]])
        lp, dens, (u,) = P(z)
        c.expect(np.all(u[0] + u[1] < 1) and np.all(u[0] > 0) and np.all(u[0] + 2 * u[1] > 0), "inside the triangle", got=u)
        # the triangle (0,0), (0,1), (2,-1) has unit area: the uniform density is 1 per pair
        c.close("density is that of the uniform triangle", dens, 0.0, 1e-6 * (1 + 2 * n))
        w = np.array([1 - u[0] - u[1], u[0] / 2, (u[0] + 2 * u[1])]).reshape(3, -1)[:, -1]
        lo, hi = np.minimum(lo, w), np.maximum(hi, w)
    c.expect(np.all(lo < 0.01) and np.all(hi > 0.9), "the walk reaches every side and corner of the triangle", lo=lo, hi=hi)
    for i in range(n):
        c.lattice(np.full((1, 1), i), vals[:, None], vals, traces=1)
    c.outcome("densities", N)
    c.sample(start=u0)
