import numpy as np

from mc.core import product
from mc.dist import Pushed, pm, walks
from mc.env import xo

RULE = ("cell = (shape, how the starting point is given); model state = (element, pair of sampling coordinates); transition = moving to the next pair; "
        "trace = the walk of one element over all pairs, the sampling density being pushed forward to (x, y) with the code's own Jacobian determinant")
BOUNDS = "14 shapes and starting points x every pair of 13 sampling coordinates in [-12, 12] for every element (thorough: 41 coordinates)"
FORMS = {
    "scalar": dict(), "()": dict(shape=()), "1": dict(shape=1), "3": dict(shape=3), "(2,)": dict(shape=(2,)), "(2,2)": dict(shape=(2, 2)),
    "init": dict(initval=[0.5, 0.25]), "init-neg": dict(initval=[-0.6, -0.7]), "testval": dict(testval=[0.1, -0.9]),
    "init-array": dict(initval=np.array([0.8, 0.5])), "init2": dict(shape=2, initval=np.array([[0.5, -0.1], [0.2, 0.9]])),
    "init22": dict(shape=(2, 2), initval=np.array([[[0.5, -0.1], [0.2, 0.3]], [[0.1, 0.2], [0.7, -0.4]]])),
    "dims": dict(dims="p", initval=np.array([[0.3, -0.5], [0.8, 0.0]])), "edge": dict(initval=[0.0, 0.99]),
}


def cells(tier):
    return product(form=list(FORMS), tier=[tier])


def run(c, cell):
    kw = FORMS[cell["form"]]
    with pm.Model(coords=dict(p=[0, 1])) as m:
        vx, vy = xo.distributions.unit_disk("x", "y", **kw)
    c.expect(vx is m["x"] and vy is m["y"], "the returned variables are the named ones, in order")
    P = Pushed(m, ["x", "y"])
    shape = np.shape(np.zeros(kw.get("shape", () if "dims" not in kw else 2)))
    init = np.asarray(kw.get("initval", kw.get("testval", np.zeros((2,) + shape))))
    c.expect(P.oshapes == [shape, shape], "shapes", got=P.oshapes, want=shape)
    n = int(np.prod(shape, dtype=int))
    if not c.expect(P.dim == 2 * n and P.jac, "two sampling dimensions per pair", got=P.dim):
        return
    x0, y0 = P(P.start())[2]
    c.close("starting x", x0, init[0], 1e-9)
    c.close("starting y", y0, init[1], 1e-9)
    vals = np.array([-12, -5, -3, -2, -1, -0.4, 0, 0.3, 0.9, 2, 3.3, 6, 12.0])
    if cell["tier"] == "thorough":
        vals = np.concatenate([vals, np.linspace(-9.1, 9.3, 28)])
    zs, N = walks(2 * n, vals, 2)
    first = None
    seen = []
    for z in zs:
        # `walks` interleaves pairs; value variables are stored one after the other
        z = np.concatenate([z[0::2], z[1::2]])
        lp, dens, (x, y) = P(z)
        c.expect(np.all(x**2 + y**2 < 1), "inside the disk", got=[x, y])
        c.expect(np.isfinite(lp), "finite density", got=lp, at=z)
        if first is None:
            first = dens
        c.close("density is constant over the disk", dens, first, 1e-6 * (1 + 2 * n))
        seen.append((np.ravel(x)[-1], np.ravel(y)[-1]))
    seen = np.array(seen)
    c.expect(len(np.unique(np.round(seen, 12), axis=0)) >= 0.9 * N, "the walk covers the disk", got=len(np.unique(seen, axis=0)))
    for q in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        c.expect(np.any((seen[:, 0] * q[0] > 0.3) & (seen[:, 1] * q[1] > 0.3)), "every quadrant is reached", quadrant=q)
    for i in range(n):
        c.lattice(np.full((1, 1), i), vals[:, None], vals, traces=1)
    c.outcome("densities", N)
    c.sample(start=[x0, y0], density=first)
