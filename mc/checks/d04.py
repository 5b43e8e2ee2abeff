import numpy as np

from mc.core import product
from mc.dist import Pushed, pm, walks
from mc.env import pt, xo

RULE = ("cell = (kind and shape of the radius ratio, given shape, starting point); model state = (planet, sampling coordinates of the impact parameter and, "
        "when it is random, of the radius ratio); transition = moving to the next coordinates; trace = the walk of one planet over all of them, the density being "
        "pushed forward to (b, ror) with the code's own Jacobian determinant")
BOUNDS = ("19 kinds of radius ratio (number, list, array, tensor, 5 random shapes) x given shapes x 4 starting points x every combination of 9 coordinates in "
          "[-12, 12] (thorough: 33)")
ASSUMPTIONS = ["random radius ratios are log-uniform or uniform PyMC variables created by the user"]
FIX = {"0.1": (0.1, ()), "0": (0.0, ()), "int1": (1, ()), "np": (np.float64(0.3), ()), "array2": (np.array([0.1, 0.7]), (2,)), "list3": ([0.05, 0.2, 1.5], (3,)),
       "length1": (np.array([0.4]), (1,)), "matrix": (np.array([[0.1, 0.2], [0.3, 0.9]]), (2, 2)), "const": (pt.constant(np.array([0.1, 0.7])), (2,)),
       "f32": (np.array([0.25, 0.5], dtype="float32"), (2,)), "tuple": ((0.1, 0.6), (2,))}
RAND = {"rv": (), "rv-shape2": (2,), "rv-shape3": (3,), "rv-shape1": (1,), "rv-22": (2, 2), "det": (2,), "log": ()}


def cells(tier):
    out = product(ror=list(FIX) + list(RAND), shape=["inferred", "given"], init=["default", "scalar", "full", "testval"])
    out += product(ror=["0.1", "rv"], shape=["2", "(3,)"], init=["default", "scalar", "full", "testval"])
    out += product(ror=["array2", "rv-shape2"], shape=["dims"], init=["default", "full"])
    return [dict(x, tier=tier) for x in out]


def run(c, cell):
    kw, k = {}, cell["ror"]
    with pm.Model(coords=dict(p=[0, 1])) as m:
        names = ["b"]
        if k in FIX:
            ror, rshape = FIX[k]
            rnum = np.asarray(ror.data if hasattr(ror, "data") and not isinstance(ror, (np.ndarray, np.generic)) else ror, float)
        else:
            rshape, rnum = RAND[k], None
            sk = dict(shape=rshape) if rshape else {}
            if k == "log":
                lr = pm.Normal("lr", -1.0, 0.5)
                ror = pt.exp(lr)
                names.append("lr")
            elif k == "det":
                a = pm.Uniform("a", 0.1, 0.5, shape=2)
                ror = pm.Deterministic("r2", 2 * a)
                names.append("a")
            else:
                ror = pm.Uniform("ror", 0.01, 0.8, **sk)
                names.append("ror")
        shape = rshape
        if cell["shape"] == "given":
            kw["shape"] = rshape[0] if len(rshape) == 1 else rshape
        elif cell["shape"] == "2":
            kw["shape"], shape = 2, (2,)
        elif cell["shape"] == "(3,)":
            kw["shape"], shape = (3,), (3,)
        elif cell["shape"] == "dims":
            kw["dims"] = "p"
        n = int(np.prod(shape, dtype=int))
        init = 0.5
        if cell["init"] == "scalar":
            init = kw["initval"] = 0.3
        elif cell["init"] == "testval":
            init = kw["testval"] = 0.8
        elif cell["init"] == "full":
            init = kw["initval"] = np.linspace(0.05, 0.9, n).reshape(shape) if shape else 0.05
        kw0 = dict(kw)
        v = xo.distributions.impact_parameter("b", ror, **kw)
    c.expect(kw == kw0, "arguments not modified")
    c.expect(v is m["b"], "the returned variable is the named one")
    P = Pushed(m, names)
    c.expect(P.oshapes[0] == shape, "shape of the impact parameter", got=P.oshapes[0], want=shape)
    if not c.expect(P.jac, "one sampling dimension per impact parameter", got=P.dim, want=P.odim):
        return
    c.close("starting point", P(P.start())[2][0], np.broadcast_to(init, shape).astype(float), 1e-8)
    vals = np.array([-12, -5, -2, -0.4, 0, 0.9, 2, 6, 12.0])
    if cell["tier"] == "thorough":
        vals = np.concatenate([vals, np.linspace(-9.1, 9.3, 24)])
    dep = rnum is None and cell["shape"] not in ("2", "(3,)")
    rvals = vals if k not in ("log",) else vals / 6
    nr = P.dim - n  # sampling dimensions of the radius ratio
    if rnum is not None:
        zs, N = walks(P.dim, vals, 1)
    elif not dep:
        zs = [np.concatenate([[r], np.resize(np.roll(vals, i), n)]) for r in rvals for i in range(len(vals))]
        N = len(zs)
    else:
        zs, N = walks(P.dim, vals, 2)
        zs = [np.concatenate([z[0::2] * (rvals[0] / vals[0]), z[1::2]]) for z in zs]
    lo, hi = np.inf, -np.inf
    for z in zs:
        lp, dens, outs = P(z)
        b = outs[0]
        if rnum is not None:
            r, prior = np.broadcast_to(rnum, shape), 0.0
        elif k == "log":
            r, x = np.broadcast_to(np.exp(outs[1]), shape), outs[1]
            prior = float(-0.5 * ((x + 1) / 0.5) ** 2 - np.log(0.5 * np.sqrt(2 * np.pi)))
        elif k == "det":
            r, prior = 2 * outs[1], 2 * -np.log(0.4)
        else:
            r, prior = np.broadcast_to(outs[1], shape), -nr * np.log(0.79)
        c.expect(np.all((b >= 0) & (b <= 1 + r)), "within [0, 1 + ror]", got=b, ror=r)
        c.close("density of b given ror", dens, prior - np.sum(np.log1p(r)), 1e-7 * (1 + P.dim) + 1e-10 * abs(prior))
        f = np.ravel(b / (1 + r))[-1]
        lo, hi = min(lo, f), max(hi, f)
    c.expect(lo < 0.01 and hi > 0.99, "the walk reaches both ends of the interval", got=[lo, hi])
    for i in range(n):
        c.lattice(np.full((1, 1), i), (np.zeros(1) if rnum is not None else rvals)[:, None], vals, traces=1)
    c.outcome("densities", N)
    c.sample(b=b, ror=r)
