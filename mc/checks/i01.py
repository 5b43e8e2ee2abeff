import numpy as np

from mc.core import product
from mc.env import ev, fn, pt, xo

RULE = ("cell = (number of dimensions, grid sizes, output axes, fill value, kind of the inputs); model state = position of the coordinate relative to every grid line in "
        "every dimension (below, on each node, inside each cell, next to each node, above); transition = moving to the next position in one dimension; trace = one sweep "
        "over all positions of the last dimension, compared with the multilinear reference")
BOUNDS = ("1-4 dimensions, 2-5 uneven nodes per dimension, 5 kinds of output axes, 5 fill values, 7 kinds of inputs; every combination of positions over all dimensions "
          "(7-13 positions per dimension in 1-3 dimensions, 5 in 4; thorough: 13 in 3 dimensions and 7 in 4)")
NODES = [np.array([-2.0, -0.5, 0.25, 3.0, 3.5]), np.array([10.0, 10.5, 12.5, 20.0]), np.array([-1e-3, 0.0, 5e-3]), np.array([0.0, 100.0])]
SHAPES = {1: [(0,), (1,), (2,), (3,)], 2: [(0, 1), (3, 2), (2, 0), (3, 3)], 3: [(0, 1, 2), (2, 3, 1)], 4: [(2, 3, 2, 3), (0, 2, 3, 1)]}
OUT = [(), (1,), (3,), (2, 3), (1, 1)]
FILL = [None, "nan", 0.0, 7.5, "inf"]


def cells(tier):
    out = []
    for nd in SHAPES:
        out += product(grid=[list(x) for x in SHAPES[nd]], out=[list(x) for x in OUT], fill=FILL, kind=["array", "symbolic"])
        out += product(grid=[list(SHAPES[nd][0])], out=[[], [3]], fill=[None, "nan"], kind=["list", "float32", "integer", "coords3", "single", "function"])
    return [dict(x, tier=tier) for x in out]


def positions(g, nd, tier):
    d = np.diff(g)
    inner = np.concatenate([g[:-1] + q * d for q in ((0.3, 0.71, 1e-9, 1 - 1e-9) if nd == 1 else (0.3, 0.71) if nd == 2 or tier == "thorough" else (0.37,))])
    pos = np.concatenate([g, inner, [g[0] - 0.4 * d[0], g[-1] + 0.6 * d[-1]]])
    if nd == 1:
        pos = np.concatenate([pos, [g[0] - 1e-9 * d[0], g[-1] + 1e-9 * d[-1], g[0] - 20 * d[0], g[-1] + 30 * d[-1]]])
    elif nd == 2:
        pos = np.concatenate([pos, [g[0] - 1e-9, g[-1] + 1e-9 * max(1, g[-1])]])
    elif nd == 4 and tier != "thorough":
        pos = np.array([g[0] - 0.4 * d[0], g[0], g[0] + 0.37 * d[0], g[-2] + 0.8 * d[-1], g[-1]])
    return np.sort(pos)


def reference(grids, values, x):
    """Multilinear interpolation of one point, dimension by dimension."""
    v = values
    for g, q in zip(grids, x):
        i = max(j for j in range(len(g) - 1) if j == 0 or g[j] <= q)
        w = (q - g[i]) / (g[i + 1] - g[i])
        v = (1 - w) * v[i] + w * v[i + 1]
    return v


def run(c, cell):
    kind, nd = cell["kind"], len(cell["grid"])
    grids = [NODES[k] for k in cell["grid"]]
    out = tuple(cell["out"])
    if kind == "integer":
        grids = [np.array([0, 1, 5, 7])[: len(g)] if len(g) > 2 else np.array([0, 4]) for g in grids]
    if kind == "float32":
        grids = [np.array([-2.0, -0.5, 0.25, 3.0, 3.5], dtype="float32")[: len(g)] for g in grids]
    shape = tuple(len(g) for g in grids) + out
    size = int(np.prod(shape))
    i = np.arange(size)
    values = (np.sin(1.3 * i) * 3 + 0.01 * i**1.3).reshape(shape)
    if kind == "integer":
        values = ((i * 7) % 23).reshape(shape)
    if kind == "float32":
        values = values.astype("float32")
    pos = [positions(np.asarray(g, float), nd, cell["tier"]) for g in grids]
    mesh = np.stack([m.ravel() for m in np.meshgrid(*pos, indexing="ij")], -1)
    fill = {"nan": np.nan, "inf": np.inf}.get(cell["fill"], cell["fill"])
    fkw = {} if fill is None else dict(fill_value=fill)
    gin, vin, xin = grids, values, mesh
    if kind == "list":
        gin, vin, xin = [g.tolist() for g in grids], values.tolist(), mesh.tolist()
    elif kind == "coords3":
        xin = np.concatenate([mesh, mesh[:1]]).reshape(-1, 1, nd) if len(mesh) % 2 else mesh.reshape(2, -1, nd)
    keep = [np.array(q, copy=True) for q in list(grids) + [values, mesh]]
    if kind == "symbolic":
        sg, sv, sx = [pt.dvector() for _ in grids], pt.TensorType("float64", (None,) * values.ndim)(), pt.dmatrix()
        got = fn(sg + [sv, sx], xo.interp.RegularGridInterpolator(sg, sv, **fkw).evaluate(sx))(*grids, values, mesh)
    elif kind == "single":
        op = xo.interp.RegularGridInterpolator(gin, vin, **fkw)
        x = pt.dvector()
        f = fn([x], op.evaluate(x[None, :]))
        got = np.concatenate([f(q) for q in mesh])
    elif kind == "function":
        got = ev(xo.interp.regular_grid_interp(gin, vin, xin, **fkw))
    else:
        op = xo.interp.RegularGridInterpolator(gin, vin, **fkw)
        got = ev(op.evaluate(xin))
        c.close("a second evaluation", ev(op.evaluate(xin)), got, 0)
    if kind == "coords3":
        c.expect(got.shape == xin.shape[:-1] + out, "shape of the coordinates", got=got.shape)
        got = got.reshape((-1,) + out)[: len(mesh)]
    want = np.array([reference([np.asarray(g, float) for g in grids], np.asarray(values, float), x) for x in mesh]).reshape((len(mesh),) + out)
    inside = np.all([(mesh[:, k] >= g[0]) & (mesh[:, k] <= g[-1]) for k, g in enumerate(grids)], axis=0)
    if fill is not None:
        want[~inside] = fill
    scale = np.where(np.isfinite(want), 1 + np.abs(want), 1)
    c.close("interpolated value", got, want, 1e-9 * scale * (1 if nd < 3 else 10), coords={f"x{k}": mesh[:, k].reshape((-1,) + (1,) * len(out)) for k in range(nd)})
    node = np.all([np.isin(mesh[:, k], g) for k, g in enumerate(grids)], axis=0)
    for j in np.flatnonzero(node):
        idx = tuple(int(np.flatnonzero(np.asarray(g, float) == q)[0]) for g, q in zip(grids, mesh[j]))
        c.close("tabulated value at the node", got[j], np.asarray(values[idx], float), 1e-12 * (1 + np.abs(values).max()), coords=dict(node=idx))
    c.expect(all(np.array_equal(a, b) for a, b in zip(list(grids) + [values, mesh], keep)), "inputs not modified")
    c.lattice(*[mesh[:, k].reshape([len(p) for p in pos]) for k in range(nd)])
    c.outcome("inside", np.count_nonzero(inside))
    c.outcome("outside", np.count_nonzero(~inside))
    c.outcome("node", np.count_nonzero(node))
    c.sample(x=mesh[len(mesh) // 2], want=want[len(mesh) // 2])
