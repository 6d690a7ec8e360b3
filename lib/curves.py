"""Closed curves in the R-Z plane with independent references"""
import numpy as np
from scipy.interpolate import CubicSpline


def shape(c, t):
    """Smooth star shaped curve: r(t) with a few harmonics"""
    t = np.asarray(t, dtype=float)
    r = np.ones(t.shape)
    for k, (a, b) in enumerate(c["h"], start=2):
        r = r + a * np.cos(k * t) + b * np.sin(k * t)
    r = c["a"] * r
    return c["R0"] + r * np.cos(t), c["Z0"] + c["kappa"] * r * np.sin(t)


def points(c):
    """Points of the curve as given to zoidberg"""
    n = c["n"]
    u = 2 * np.pi * np.arange(n) / n
    t = c["start"] + u + c.get("uneven", 0.0) * np.sin(u)
    R, Z = shape(c, t)
    if c.get("reverse"):
        R, Z = R[::-1], Z[::-1]
    return R, Z


def random_curve(rng, a, n, R0=2.0, Z0=0.0, rough=1.0, reverse=None):
    u = lambda lo, hi: float(rng.uniform(lo, hi))  # noqa
    return dict(
        R0=R0,
        Z0=Z0,
        a=a,
        kappa=u(0.8, 1.4),
        h=[[u(-0.06, 0.06) * rough, u(-0.06, 0.06) * rough], [u(-0.03, 0.03) * rough, u(-0.03, 0.03) * rough]],
        n=n,
        start=u(-np.pi, np.pi),
        uneven=u(-0.3, 0.3) * rough,
        reverse=bool(rng.random() < 0.5) if reverse is None else reverse,
    )


def anticlockwise(R, Z):
    a = np.sum(R * np.roll(Z, -1) - np.roll(R, -1) * Z)
    return (R, Z) if a > 0 else (R[::-1], Z[::-1])


def spline(R, Z):
    """Periodic interpolating cubic spline with uniform parameter, as (R(t), Z(t))"""
    n = len(R)
    t = np.linspace(0, 2 * np.pi, n + 1)
    r = CubicSpline(t, np.append(R, R[0]), bc_type="periodic")
    z = CubicSpline(t, np.append(Z, Z[0]), bc_type="periodic")
    return r, z


def project(r, z, R, Z, m=4000):
    """Distance of points from the spline and the parameter of the closest point"""
    t = np.linspace(0, 2 * np.pi, m, endpoint=False)
    P = np.stack([r(t), z(t)], -1)
    Q = np.stack([np.ravel(R), np.ravel(Z)], -1)
    i = np.array([np.argmin(np.sum((P - q) ** 2, -1)) for q in Q])
    s = t[i]
    for _ in range(8):  # Newton
        a, b = r(s % (2 * np.pi)) - Q[:, 0], z(s % (2 * np.pi)) - Q[:, 1]
        r1, z1 = r(s % (2 * np.pi), 1), z(s % (2 * np.pi), 1)
        r2, z2 = r(s % (2 * np.pi), 2), z(s % (2 * np.pi), 2)
        h = r1**2 + z1**2 + a * r2 + b * z2
        h = np.where(np.abs(h) > 1e-12, h, 1e-12)
        s = s - np.clip((a * r1 + b * z1) / h, -2 * np.pi / m, 2 * np.pi / m)
    s = s % (2 * np.pi)
    d = np.hypot(r(s) - Q[:, 0], z(s) - Q[:, 1])
    return d.reshape(np.shape(R)), s.reshape(np.shape(R))


def cell_areas(R, Z):
    """Signed areas of the quadrilaterals of a grid closed in the second index"""
    Rz, Zz = np.roll(R, -1, 1), np.roll(Z, -1, 1)
    ax, az = Rz[1:] - R[:-1], Zz[1:] - Z[:-1]
    bx, bz = Rz[:-1] - R[1:], Zz[:-1] - Z[1:]
    return 0.5 * (ax * bz - az * bx)
