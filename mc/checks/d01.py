import numpy as np

from mc.core import product
from mc.dist import Pushed, pm
from mc.env import xo

RULE = ("cell = (regularization, shape, how the shape and starting point are given); model state = (element, point (radius, angle) of the sampling plane); "
        "transition = moving one step around the circle or one ring outwards; trace = the whole walk, evaluated by the model's own logp and deterministic")
BOUNDS = ("7 regularizations (incl. None, 0, 0.5) x 9 shapes/dims/initial values x 9 radii 0.001..6 x 24 angles incl. -pi, +-pi/2, 0, for every element "
          "(thorough: 14 radii x 96 angles)")
ASSUMPTIONS = ["the density is checked in the sampling plane, up to the documented radial factor"]
FORMS = {
    "scalar": dict(), "()": dict(shape=()), "1": dict(shape=1), "3": dict(shape=3), "(2,)": dict(shape=(2,)), "(2,2)": dict(shape=(2, 2)),
    "init": dict(initval=2.5), "testval": dict(testval=-1.0), "init3": dict(shape=3, initval=[0.5, -1.0, 3.0]),
    "init22": dict(shape=(2, 2), initval=np.array([[0.1, -3.0], [1.7, 2.2]])), "dims": dict(dims="p", initval=np.array([0.2, -2.0])),
    "tuple3": dict(shape=(3,), testval=np.array([-0.5, 0.0, 1.0])),
}


def cells(tier):
    return product(reg=["default", None, 0.0, 0.5, 1.0, 10.0, 25.0], form=list(FORMS), tier=[tier])


def run(c, cell):
    kw, reg, th = FORMS[cell["form"]], cell["reg"], cell["tier"] == "thorough"
    with pm.Model(coords=dict(p=[0, 1])) as m:
        v = xo.distributions.angle("w", **kw, **({} if reg == "default" else dict(regularization=reg)))
    c.expect(v is m["w"], "the returned variable is the named one")
    P = Pushed(m, ["w"])
    shape = np.shape(np.zeros(kw.get("shape", () if "dims" not in kw else 2)))
    init = np.broadcast_to(kw.get("initval", kw.get("testval", 0.0)), shape)
    c.expect(P.oshapes == [shape], "shape of the angle", got=P.oshapes, want=shape)
    n = int(np.prod(shape, dtype=int))
    if not c.expect(P.dim == 2 * n, "two sampling dimensions per angle", got=P.dim):
        return
    c.close("starting point", P(P.start())[2][0], init, 1e-12 * np.ones(shape))
    k = 10.0 if reg == "default" else (reg or 0.0)
    radii = np.concatenate([[0.001, 0.1, 0.5, 1.0, 1.5, 2.5, 3.5, 4.5, 6.0], [0.01, 0.03, 0.3, 2.0, 3.0] if th else []])
    na = 96 if th else 24
    ang = -np.pi + 2 * np.pi / na * np.arange(na)
    swap = None
    mesh = [(r, a) for r in radii for a in ang]
    N = len(mesh)
    for s in range(N):
        pts = [mesh[(s * (1 if i == 0 else 1 + 2 * i) + 5 * i) % N] for i in range(n)]
        r, a = np.array(pts).T
        x, y = r * np.sin(a), r * np.cos(a)
        lp, _, (w,) = P(np.concatenate([x, y]))
        w = np.ravel(w)
        want = np.arctan2(x, y), np.arctan2(y, x)
        err = [np.max(np.abs(np.angle(np.exp(1j * (w - q))))) for q in want]
        if swap is None and abs(err[0] - err[1]) > 1e-6:  # which of the two plane coordinates is the sine
            swap = int(err[1] < err[0])
        if swap is not None:
            c.expect(err[swap] <= 1e-9, "angle of the point", got=w, want=want[swap], at=pts)
        c.expect(np.all(np.abs(w) <= np.pi), "within [-pi, pi]", got=w)
        ref = np.sum(-0.5 * r**2 - np.log(2 * np.pi) + 2 * k * np.log(r))
        c.close("log density", lp, ref, 1e-8 * (1 + abs(ref)), coords=dict(r=r[:1], a=a[:1]))
    for i in range(n):
        c.lattice(np.full(1, i)[:, None, None], radii[:, None], ang, traces=1)
    c.outcome("densities", N)
    c.sample(r=mesh[N // 2][0], angle=mesh[N // 2][1])
