"""Reference models in plain numpy, written from the physics and independent of the code under test."""
import numpy as np

# CODATA/IAU nominal values, written out so that they do not come from the code under test
G_SI = 6.6743e-11
M_SUN = 1.988409870698051e30
R_SUN = 695700000.0
AU = 149597870700.0
DAY = 86400.0
C_SI = 299792458.0
G = G_SI * M_SUN * DAY**2 / R_SUN**3          # R_sun^3 / M_sun / day^2
C_LIGHT = C_SI * DAY / R_SUN                  # R_sun / day
GCC = M_SUN / R_SUN**3 * 1e-3                 # g/cm^3 per M_sun/R_sun^3
AU_PER_RSUN = R_SUN / AU
TWO_PI = 2 * np.pi
M_JUP_PER_MSUN_INV = 1.988409870698051e30 / 1.8981245973360505e27


def kepler_E(M, e):
    """Eccentric anomaly by bisection then Newton in extended precision; exact branch (E-M in [-pi,pi])."""
    M = np.asarray(M, dtype=np.longdouble)
    e = np.asarray(e, dtype=np.longdouble)
    M, e = np.broadcast_arrays(M, e)
    two_pi = 2 * np.longdouble(np.pi) + 2 * np.longdouble(1.2246467991473532e-16)
    k = np.floor(M / two_pi + np.longdouble(0.5))
    m = M - k * two_pi
    s = np.where(m < 0, -1, 1)
    m = np.abs(m)
    lo, hi = m.copy(), np.minimum(m + e, np.longdouble(4))
    for _ in range(30):
        mid = 0.5 * (lo + hi)
        big = mid - e * np.sin(mid) > m
        hi = np.where(big, mid, hi)
        lo = np.where(big, lo, mid)
    E = 0.5 * (lo + hi)
    for _ in range(4):
        d = 1 - e * np.cos(E)
        E = E - np.where(d > 1e-12, (E - e * np.sin(E) - m) / np.maximum(d, 1e-12), 0)
        E = np.clip(E, lo, hi)
    return s * E + k * two_pi


def mean_anomaly_at_transit(e, w):
    """Mean anomaly when the planet is at inferior conjunction (true anomaly pi/2 - omega)."""
    f = np.pi / 2 - w
    d = 1 + e * np.cos(f)
    E = np.arctan2(np.sqrt(1 - e * e) * np.sin(f) / d, (e + np.cos(f)) / d)
    return E - e * np.sin(E)


def t_peri_from_t0(t0, P, e, w):
    return t0 - mean_anomaly_at_transit(e, w) * P / TWO_PI


class RefOrbit:
    """A two-body orbit. All parameters are numpy arrays that broadcast against times on the right."""

    def __init__(self, P, a, e, w, tp, cosi, sini, W, m_star=1.0, m_planet=0.0):
        (self.P, self.a, self.e, self.w, self.tp, self.cosi, self.sini, self.W, self.ms, self.mp) = [
            np.asarray(x, dtype=float) for x in (P, a, e, w, tp, cosi, sini, W, m_star, m_planet)]

    def _rot(self, X, Y):
        cw, sw, cW, sW = np.cos(self.w), np.sin(self.w), np.cos(self.W), np.sin(self.W)
        x1, y1 = cw * X - sw * Y, sw * X + cw * Y
        y2, z = self.cosi * y1, self.sini * y1
        # z is positive towards the observer; at inferior conjunction (y1=+r) the planet is in front
        return np.stack([-(cW * x1 - sW * y2), -(sW * x1 + cW * y2), z])

    def plane(self, t):
        n = TWO_PI / self.P
        E = kepler_E((np.asarray(t, dtype=np.longdouble) - self.tp) * n, self.e).astype(float)
        cE, sE = np.cos(E), np.sin(E)
        q = np.sqrt(1 - self.e**2)
        Ed = n / (1 - self.e * cE)
        X, Y = self.a * (cE - self.e), self.a * q * sE
        VX, VY = -self.a * sE * Ed, self.a * q * cE * Ed
        r3 = (self.a * (1 - self.e * cE)) ** 3
        GM = n**2 * self.a**3
        return X, Y, VX, VY, -GM * X / r3, -GM * Y / r3

    def rel(self, t):
        X, Y, VX, VY, AX, AY = self.plane(t)
        return self._rot(X, Y), self._rot(VX, VY), self._rot(AX, AY)

    def tol(self, t, base=1e-8, order=0):
        """Scale of rounding in M=(t-tp)*n carried to position (order 0), velocity (1), acceleration (2)."""
        n = TWO_PI / self.P
        absM = (np.abs(t) + np.abs(self.tp)) * n + 10
        dM = base + 30 * 2.2e-16 * absM
        # exoplanet_core (a binary dependency) snaps |E - pi| < 1.5e-5 to apoastron
        M = (np.asarray(t, dtype=np.longdouble) - self.tp) * n / (2 * np.longdouble(np.pi))
        apo = np.abs(M - np.floor(M) - 0.5).astype(float) * TWO_PI
        dM = dM + np.where(apo < 3.2e-5, 3.2e-5, 0.0)
        q = 1 - self.e
        amp = [self.a * np.sqrt((1 + self.e) / q),
               self.a * n / q**2,
               self.a * n**2 / q**3.5][order]
        return amp * dM * np.ones_like(np.asarray(t, dtype=float) + self.P)


def kappa(rho, b, r):
    """Half-angle of the circle of radius rho (centered on the star) hidden by a disk of radius r at b."""
    with np.errstate(all="ignore"):
        c = (rho**2 + b**2 - r**2) / (2 * rho * b)
    inside = np.where(rho + b <= r, np.pi, 0.0)
    out = np.where(np.abs(c) <= 1, np.arccos(np.clip(c, -1, 1)), inside)
    return np.where(b == 0, np.where(rho < r, np.pi, 0.0), out)


_GL = np.polynomial.legendre.leggauss(48)


def blocked_flux(u1, u2, b, r):
    """Relative flux change (<= 0) of a quadratically limb-darkened star occulted by an opaque disk.

    Radial integral of intensity times hidden arc, split at the kinks, with an endpoint-smoothing
    substitution; scalar u1,u2, arrays b,r."""
    b, r = np.broadcast_arrays(np.abs(np.asarray(b, float)), np.asarray(r, float))
    shape = b.shape
    b, r = b.ravel(), r.ravel()
    x, w = _GL
    # s in [0,1], rho = lo+(hi-lo)*S(s) with S'=0 to high order at both ends
    s = 0.5 * (x + 1)
    S = s**4 * (35 - 84 * s + 70 * s**2 - 20 * s**3)
    dS = 140 * s**3 * (1 - s) ** 3
    ws = 0.5 * w
    total = np.zeros_like(b)
    k0, k1 = np.minimum(np.abs(b - r), 1.0), np.minimum(b + r, 1.0)
    for lo, hi in ((np.zeros_like(b), k0), (k0, k1)):
        d = (hi - lo)[:, None]
        rho = lo[:, None] + d * S
        mu2 = 1 - rho**2
        # near rho=1 compute 1-rho accurately
        hi1 = (1 - hi)[:, None] + d * (1 - S)
        mu = np.sqrt(np.maximum(np.where(rho > 0.5, hi1 * (1 + rho), mu2), 0))
        I = 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2
        total += np.sum(I * rho * 2 * kappa(rho, b[:, None], r[:, None]) * d * dS * ws, axis=-1)
    norm = np.pi * (1 - u1 / 3 - u2 / 6)
    out = -total / norm
    out = np.where(b >= 1 + r, 0.0, out)
    return out.reshape(shape)
