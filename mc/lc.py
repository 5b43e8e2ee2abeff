"""Orbits of every kind with an independent reference for the planets' positions and fluxes."""
import warnings

import numpy as np

from mc.env import pt, xo
from mc.orb import KeplerianOrbit, SimpleTransitOrbit, TTVOrbit, semi_major
from mc.ref import C_LIGHT, GCC, RefOrbit, blocked_flux, t_peri_from_t0

P = np.array([3.0, 1.7, 7.1])
T0 = np.array([0.4, 1.1, -2.0])
B = np.array([0.3, -0.5, 0.05])
ECC = np.array([0.3, 0.0, 0.6])
W = np.array([0.7, 2.0, -2.2])
OM = np.array([0.4, -1.2, 2.9])
MS = 1.2
MP = np.array([0.0, 0.02, 0.1])
R = np.array([0.1, 0.05, 0.35])
TTV = [np.array([0.0, 0.2, -0.1]), np.array([0.15, -0.2, 0.0, 0.1]), np.array([-0.3, 0.4])]
KINDS = ["circ", "ecc", "node", "ttv", "ttv-ecc", "times", "simple", "duration", "rho"]


class System:
    """npl planets of the given kind. pos(t) has shape (3,) + t.shape + (npl,)."""

    def __init__(self, kind, npl, rs=0.9, scale=1.0, shift=0.0, scalar=False, mp=None, b=None):
        self.kind, self.npl, self.rs = kind, npl, rs * scale
        s = slice(0, npl)
        self.P, self.t0, self.b, self.mp = P[s], T0[s] + shift, B[s], MP[s]
        self.r = R[s] * self.rs
        if mp is not None:
            self.mp = np.full(npl, float(mp))
        if b is not None:
            self.b = np.full(npl, float(b))
        ecc = kind in ("ecc", "node", "ttv-ecc")
        self.e, self.w = (ECC[s], W[s]) if ecc else (np.zeros(npl), np.zeros(npl))
        self.Om = OM[s] if kind == "node" else np.zeros(npl)
        pick = (lambda x: x[0] if np.ndim(x) and scalar and npl == 1 else x)
        kw = dict(period=pick(self.P), t0=pick(self.t0), b=pick(self.b))
        self.ms = MS
        if ecc:
            kw.update(ecc=pick(self.e), omega=pick(self.w))
        if kind == "node":
            kw.update(Omega=pick(self.Om))
        self.ttv = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "simple":
                self.dur = np.array([0.1, 0.2, 0.3])[s]
                self.ror = R[s]
                self.orbit = SimpleTransitOrbit(r_star=self.rs, duration=pick(self.dur), ror=pick(self.ror), **kw)
                return
            if kind == "duration":
                dur, ror = np.array([0.11, 0.09, 0.2])[s], R[s]
                self.aor = np.sqrt((1 + ror) ** 2 - self.b**2 * np.cos(np.pi * dur / self.P) ** 2) / np.sin(np.pi * dur / self.P)
                self.a = self.aor * self.rs
                self.orbit = KeplerianOrbit(r_star=self.rs, duration=pick(dur), ror=pick(ror), **kw)
                self.mp = np.zeros(npl)
            elif kind == "rho":
                self.rho = 1.7
                self.mp = np.zeros(npl)
                self.ms = self.rho / GCC * 4 * np.pi / 3 * self.rs**3
                self.a = semi_major(self.P, self.ms)
                self.orbit = KeplerianOrbit(r_star=self.rs, rho_star=self.rho, **kw)
            else:
                # scaling every length by s keeps the motion if the masses grow as s**3
                self.ms, self.mp = MS * scale**3, self.mp * scale**3
                self.a = semi_major(self.P, self.ms + self.mp)
                kw.update(r_star=self.rs, m_star=self.ms, m_planet=pick(self.mp))
                if kind in ("ttv", "ttv-ecc"):
                    self.ttv = TTV[s]
                    self.orbit = TTVOrbit(ttvs=self.ttv, **{k: (v if k in ("r_star", "m_star") else np.atleast_1d(v)) for k, v in kw.items()})
                elif kind == "times":
                    kw.pop("period"), kw.pop("t0")
                    self.ttv = TTV[s]
                    times = [self.t0[j] + self.P[j] * np.arange(len(x)) + x for j, x in enumerate(self.ttv)]
                    fit = [np.polyfit(np.arange(len(x)), x, 1) for x in times]
                    self.P, self.t0 = np.array([f[0] for f in fit]), np.array([f[1] for f in fit])
                    self.ttv = [times[j] - self.t0[j] - self.P[j] * np.arange(len(times[j])) for j in range(npl)]
                    self.a = semi_major(self.P, self.ms + self.mp)
                    self.orbit = TTVOrbit(transit_times=times, **kw)
                else:
                    self.orbit = KeplerianOrbit(**kw)
        rc = self.a * (1 - self.e**2) / (1 + self.e * np.sin(self.w))
        ci = self.b * self.rs / rc
        self.tp = t_peri_from_t0(self.t0, self.P, self.e, self.w)
        self.ref = RefOrbit(self.P, self.a, self.e, self.w, self.tp, ci, np.sqrt(1 - ci**2), self.Om, self.ms, self.mp)

    def warp(self, t):
        """Times as seen by each planet's regular orbit, shape t.shape + (npl,)."""
        T = np.asarray(t, float)[..., None] + np.zeros(self.npl)
        if self.ttv is None:
            return T
        out = np.empty_like(T)
        for j in range(self.npl):
            lab = self.t0[j] + self.P[j] * np.arange(len(self.ttv[j])) + self.ttv[j]
            i = np.searchsorted((lab[1:] + lab[:-1]) / 2, T[..., j])
            out[..., j] = T[..., j] - lab[i] + self.t0[j]
        return out

    def boundaries(self):
        return [] if self.ttv is None else [
            (x[1:] + x[:-1]) / 2 for x in (self.t0[j] + self.P[j] * np.arange(len(self.ttv[j])) + self.ttv[j] for j in range(self.npl))]

    def pos(self, t, light_delay=False):
        if self.kind == "simple":
            ph = (np.asarray(t, float)[..., None] - self.t0) / self.P
            dt = (ph - np.round(ph)) * self.P
            v = 2 * self.rs * np.sqrt((1 + self.ror) ** 2 - self.b**2) / self.dur
            return np.stack([v * dt, self.b * self.rs + 0 * dt, np.where(np.abs(dt) < self.dur / 2, 1.0, -1.0)])
        T = np.asarray(t, float)[..., None] + np.zeros(self.npl)
        if not light_delay:
            return self.ref.rel(self.warp(t))[0]
        em = T.copy()
        for _ in range(20):
            w = np.stack([self.warp(em[..., j])[..., j] for j in range(self.npl)], -1)
            p = self.ref.rel(w)[0]
            em = T + p[2] / C_LIGHT
        return p

    def flux(self, u, t, r=None, light_delay=False, pos=None):
        """Relative flux change, shape t.shape + (npl,)."""
        r = self.r if r is None else r
        x, y, z = self.pos(t, light_delay) if pos is None else pos
        b = np.hypot(x, y) / self.rs
        rr = np.broadcast_to(np.asarray(r, float) / self.rs, b.shape)
        out = np.zeros(b.shape)
        m = (z > 0) & (b < 1 + rr)
        if m.any():
            out[m] = blocked_flux(u[0], u[1], b[m], rr[m])
        return out

    def times(self, n=60, far=True):
        """Times in and around the transits of every planet, eclipses, and elsewhere."""
        out = [np.linspace(self.t0.min() - 2, self.t0.max() + 9, n)]
        for j in range(self.npl):
            lab = [self.t0[j]] if self.ttv is None else list(self.t0[j] + self.P[j] * np.arange(len(self.ttv[j])) + self.ttv[j])
            d = np.concatenate([np.linspace(-0.14, 0.14, 21), [-0.3, 0.3, 0.25, -0.05]]) * self.P[j]
            out += [x + d for x in lab[:2]]
            out += [lab[0] + self.P[j] * (0.5 + np.linspace(-0.05, 0.05, 5))]
            if far:
                out += [lab[-1] + 40 * self.P[j] + d[::3], lab[0] - 17 * self.P[j] + d[::3]]
        return np.concatenate(out)


def light_curve(ld, form):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if form == "vector":
            return xo.LimbDarkLightCurve(np.array(ld))
        if form == "list":
            return xo.LimbDarkLightCurve(list(ld))
        if form == "tensor":
            return xo.LimbDarkLightCurve(pt.as_tensor_variable(ld[0]), pt.as_tensor_variable(ld[1]))
    return xo.LimbDarkLightCurve(*ld)
