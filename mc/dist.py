"""Pushes the density of a model's sampling space forward to the named outputs.

For outputs y = f(z) with as many entries as the value variables z, log p_y(f(z)) = log p_z(z) - log|det df/dz|; the
reference densities are closed forms of y, so transforms, potentials and helper variables need not be known."""
import numpy as np
import pymc as pm

from mc.env import fn, pt, pytensor


class Pushed:
    def __init__(self, model, names, jac=True):
        self.model, self.names = model, names
        self.vv = list(model.value_vars)
        self.ip = model.initial_point()
        self.shapes = [np.shape(self.ip[v.name]) for v in self.vv]
        self.dim = int(sum(np.prod(s, dtype=int) for s in self.shapes))
        outs = model.replace_rvs_by_values([model[n] for n in names]) if names else []
        lp = model.logp(jacobian=True, sum=True)
        flat = []
        with_sizes = fn(self.vv, [o.shape for o in outs])(*[self.ip[v.name] for v in self.vv]) if outs else []
        self.oshapes = [tuple(int(x) for x in s) for s in with_sizes]
        self.odim = int(sum(np.prod(s, dtype=int) for s in self.oshapes))
        self.jac = jac and self.odim == self.dim
        if self.jac:
            for o, s in zip(outs, self.oshapes):
                r = o.flatten()
                for i in range(int(np.prod(s, dtype=int))):
                    g = pytensor.grad(r[i], self.vv, disconnected_inputs="ignore", return_disconnected="zero")
                    flat.append(pt.concatenate([x.flatten() for x in g]))
        self.f = fn(self.vv, [lp] + list(outs) + flat)

    def split(self, z):
        z, out, i = np.asarray(z, float), [], 0
        for s in self.shapes:
            n = int(np.prod(s, dtype=int))
            out.append(z[i:i + n].reshape(s))
            i += n
        return out

    def start(self):
        return np.concatenate([np.ravel(self.ip[v.name]) for v in self.vv]) if self.vv else np.zeros(0)

    def __call__(self, z):
        """(log density of the sampling space, log density of the outputs or None, outputs)."""
        r = self.f(*self.split(z))
        n = len(self.names)
        outs = [np.asarray(x) for x in r[1:1 + n]]
        lp = float(r[0])
        if not self.jac:
            return lp, None, outs
        s, ld = np.linalg.slogdet(np.array(r[1 + n:]))
        return lp, lp - ld, outs


def walks(dim, values, block):
    """Every combination of `values` over one block of `block` coordinates; the other blocks run through the same
    combinations with a different starting point and stride, so that all are exercised and differ from one another."""
    mesh = np.stack([g.ravel() for g in np.meshgrid(*[values] * block, indexing="ij")], -1)
    n, k = len(mesh), dim // block
    idx = [(np.arange(n) * (1 if i == 0 else 1 + 2 * i) + 7 * i) % n for i in range(k)]
    return [np.concatenate([mesh[idx[i][s]] for i in range(k)]) for s in range(n)], n


__all__ = ["Pushed", "walks", "pm"]
