"""Magnetic fields for the workloads, each with an independent reference.

``build(spec)`` returns the zoidberg field under test, ``direction(spec)`` the
right hand side of the field line equation and ``components(spec)`` the field,
both written from the physics with numpy only.
"""
import numpy as np
from scipy.integrate import solve_ivp


# ------------------------------------------------------------------ analytic
def _flow(spec):
    """(dx/dy, dz/dy) of the harness' own fields, by formula"""
    t = spec["flow"]
    p = spec["p"]
    if t == "rotation":  # exact: rotation around (xc, zc)
        w, xc, zc = p
        return lambda x, z, y: (-w * (z - zc), w * (x - xc))
    if t == "shear":
        a, b, xc = p
        return lambda x, z, y: (0 * x, a + b * (x - xc))
    if t == "hyperbolic":
        a, xc, zc = p
        return lambda x, z, y: (a * (x - xc), -a * (z - zc))
    if t == "wobble":  # explicit dependence on y
        a, b, k, w, xc = p
        return lambda x, z, y: (
            a * np.cos(k * y) - w * z,
            b * np.sin(k * y) + w * (x - xc),
        )
    if t == "pendulum":  # nonlinear
        a, b, xc = p
        return lambda x, z, y: (a * np.sin(b * z), -a * np.sin(b * (x - xc)))
    raise ValueError(t)


def exact(spec, x, z, y0, y):
    """Closed form field line position, or None"""
    t = spec.get("flow")
    if t == "rotation":
        w, xc, zc = spec["p"]
        c, s = np.cos(w * (y - y0)), np.sin(w * (y - y0))
        return xc + (x - xc) * c - (z - zc) * s, zc + (x - xc) * s + (z - zc) * c
    if t == "shear":
        a, b, xc = spec["p"]
        return x + 0 * y, z + (a + b * (x - xc)) * (y - y0)
    if t == "hyperbolic":
        a, xc, zc = spec["p"]
        return xc + (x - xc) * np.exp(a * (y - y0)), zc + (z - zc) * np.exp(-a * (y - y0))
    return None


def _by(spec):
    b = spec.get("By", {"kind": "const", "v": 1.0})
    if b["kind"] == "const":
        return lambda x, z, y: b["v"] + 0 * x
    if b["kind"] == "1/x":
        return lambda x, z, y: b["v"] / x
    if b["kind"] == "var":  # depends on everything, never small
        return lambda x, z, y: b["v"] * (
            1 + 0.2 * np.sin(b["kx"] * x + b["kz"] * z + b["ky"] * y)
        )
    raise ValueError(b)


def coils(spec, x, z, y):
    """Four straight/helical line currents of alternating sign.

    Written from B = I/(2 pi r) (in the code's units: 0.2 I / r), with
    Bx = +dA/dz... sign convention: theta-hat clockwise.
    """
    xc, zc = spec.get("xcentre", 0.0), spec.get("zcentre", 0.0)
    rad, per, I0 = spec["radius"], spec["yperiod"], spec["I_coil"]
    Bx = 0 * x
    Bz = 0 * x
    for i in range(4):
        ang = 0.5 * np.pi * i + 2 * np.pi * y / per
        cx, cz = xc + rad * np.cos(ang), zc + rad * np.sin(ang)
        cur = I0 if i % 2 == 0 else -I0
        dx, dz = x - cx, z - cz
        r2 = dx**2 + dz**2
        Bx = Bx + 0.2 * cur * dz / r2
        Bz = Bz - 0.2 * cur * dx / r2
    return Bx, Bz


def components(spec):
    """(x, z, y) -> (Bx, By, Bz, R) where R is None if Cartesian"""
    t = spec["type"]
    if t in ("slab", "curved"):
        R = spec["Rmaj"] if t == "curved" else None

        def f(x, z, y):
            return (
                0 * x,
                spec["By"] + 0 * x,
                spec["Bz"] + (x - spec["xcentre"]) * spec["Bzprime"],
                R,
            )

        return f
    if t == "straight":

        def f(x, z, y):
            Bx, Bz = coils(spec, x, z, y)
            return Bx, 1 + 0 * x, Bz, None

        return f
    if t == "ellipse":

        def f(x, z, y):
            Bx, Bz = coils(spec, x, z, y)
            return Bx, spec["Btor"] / x, Bz, x

        return f
    if t == "screw":

        def f(x, z, y):
            dx, dz = x - spec["xcentre"], z - spec["zcentre"]
            r = np.sqrt(dx**2 + dz**2)
            s = spec["shear"]
            return -s * r * dz, spec["Btor"] / x, s * r * dx, x

        return f
    if t == "custom":
        u = _flow(spec)
        by = _by(spec)
        cyl = spec.get("R")  # None, "x" or a number

        def f(x, z, y):
            x = np.asarray(x, dtype=float)
            ux, uz = u(x, z, y)
            B = by(x, z, y)
            R = None if cyl is None else (x if cyl == "x" else cyl + 0 * x)
            k = B if R is None else B / R
            return ux * k, B, uz * k, R

        return f
    raise ValueError(t)


def direction(spec):
    f = components(spec)

    def d(x, z, y):
        Bx, By, Bz, R = f(x, z, y)
        R = 1.0 if R is None else R
        return R * Bx / By, R * Bz / By

    return d


def build(spec, boundary=None):
    import zoidberg as zb

    t = spec["type"]
    F = zb.field
    if t == "slab":
        f = F.Slab(By=spec["By"], Bz=spec["Bz"], xcentre=spec["xcentre"], Bzprime=spec["Bzprime"])
    elif t == "curved":
        f = F.CurvedSlab(
            By=spec["By"], Bz=spec["Bz"], xcentre=spec["xcentre"], Bzprime=spec["Bzprime"], Rmaj=spec["Rmaj"]
        )
    elif t == "straight":
        f = F.StraightStellarator(
            xcentre=spec.get("xcentre", 0.0),
            zcentre=spec.get("zcentre", 0.0),
            radius=spec["radius"],
            yperiod=spec["yperiod"],
            I_coil=spec["I_coil"],
        )
    elif t == "ellipse":
        f = F.RotatingEllipse(
            xcentre=spec.get("xcentre", 0.0),
            zcentre=spec.get("zcentre", 0.0),
            radius=spec["radius"],
            yperiod=spec["yperiod"],
            I_coil=spec["I_coil"],
            Btor=spec["Btor"],
        )
    elif t == "screw":
        f = F.Screwpinch(
            xcentre=spec["xcentre"], zcentre=spec["zcentre"], shear=spec["shear"], Btor=spec["Btor"]
        )
    elif t == "custom":
        g = components(spec)

        class Custom(F.MagneticField):
            calls = 0
            points = 0

            def Bxfunc(self, x, z, phi):
                type(self).calls += 1
                type(self).points += np.size(x)
                return g(x, z, phi)[0]

            def Byfunc(self, x, z, phi):
                return g(x, z, phi)[1]

            def Bzfunc(self, x, z, phi):
                return g(x, z, phi)[2]

            def Rfunc(self, x, z, phi):
                return g(x, z, phi)[3]

            if int(abs(spec["p"][0]) * 1e6) % 4 == 0:
                # some fields provide all components at once

                def Bxyzfunc(self, x, z, phi):
                    type(self).calls += 1
                    type(self).points += np.size(x)
                    return g(x, z, phi)[:3]

            if spec.get("pressure"):

                def pressure(self, x, z, phi):
                    return pressure_ref(spec)(x, z, phi)

        f = Custom()
        if spec.get("attributes"):
            f.attributes = {
                k: (lambda x, z, phi, c=c: c[0] + c[1] * x + c[2] * z + c[3] * phi)
                for k, c in spec["attributes"].items()
            }
    else:
        raise ValueError(t)
    if boundary is not None:
        f.boundary = boundary
    return f


def pressure_ref(spec):
    if spec.get("pressure"):
        a, b, c = spec["pressure"]
        return lambda x, z, phi: a + b * x**2 + c * z * np.cos(phi)
    return lambda x, z, phi: 0.0 * x


def trace(spec, x, z, ys, rtol=1e-11, atol=1e-12):
    """Reference field lines: [len(ys), ..., 2]"""
    x = np.asarray(x, dtype=float)
    z = np.asarray(z, dtype=float)
    x, z = np.broadcast_arrays(x, z)
    shape = x.shape
    ys = np.asarray(ys, dtype=float)
    out = np.empty((len(ys),) + shape + (2,))
    out[0, ..., 0] = x
    out[0, ..., 1] = z
    ex = exact(spec, x, z, ys[0], ys[0])
    if ex is not None:
        for i, y in enumerate(ys):
            a, b = exact(spec, x, z, ys[0], y)
            out[i, ..., 0] = a
            out[i, ..., 1] = b
        return out
    d = direction(spec)
    n = x.size

    def rhs(y, p):
        ux, uz = d(p[:n], p[n:], y)
        return np.concatenate([np.broadcast_to(ux, (n,)), np.broadcast_to(uz, (n,))])

    p = np.concatenate([x.ravel(), z.ravel()])
    for i in range(1, len(ys)):
        if ys[i] != ys[i - 1]:
            s = solve_ivp(rhs, (ys[i - 1], ys[i]), p, method="DOP853", rtol=rtol, atol=atol)
            assert s.success
            p = s.y[:, -1]
        out[i, ..., 0] = p[:n].reshape(shape)
        out[i, ..., 1] = p[n:].reshape(shape)
    return out


# ------------------------------------------------------------------ generators
def random_spec(rng, kinds, xrange=(0.5, 1.5), zrange=(-0.5, 0.5), length=1.0):
    """A random field which keeps lines started in the box regular.

    ``length`` is the typical distance in y they will be followed."""
    t = kinds[int(rng.integers(len(kinds)))]
    xm = 0.5 * (xrange[0] + xrange[1])
    zm = 0.5 * (zrange[0] + zrange[1])
    w = max(xrange[1] - xrange[0], zrange[1] - zrange[0])
    L = max(length, 1e-3)
    f = lambda lo, hi: float(rng.uniform(lo, hi))  # noqa
    sgn = lambda: float(rng.choice([-1.0, 1.0]))  # noqa
    if t == "slab":
        By = sgn() * f(0.5, 2)
        return dict(type=t, By=By, Bz=f(-0.3, 0.3) * w / L, xcentre=xm + f(-0.2, 0.2) * w, Bzprime=f(-0.5, 0.5) / L)
    if t == "curved":
        R = f(0.5, 3)
        By = sgn() * f(0.5, 2)
        return dict(
            type=t, By=By, Bz=f(-0.3, 0.3) * w / L / R, xcentre=xm, Bzprime=f(-0.5, 0.5) / L / R, Rmaj=R
        )
    if t == "straight":
        return dict(
            type=t, xcentre=xm, zcentre=zm, radius=1.6 * w, yperiod=f(1.5, 6) * L, I_coil=f(0.05, 0.4) * w * w / L
        )
    if t == "ellipse":
        return dict(
            type=t,
            xcentre=xm,
            zcentre=zm,
            radius=1.6 * w,
            yperiod=f(1.5, 6) * L,
            I_coil=f(0.05, 0.3) * w * w / L / max(xm, 0.1) ** 2,
            Btor=sgn() * f(0.5, 2),
        )
    if t == "screw":
        return dict(type=t, xcentre=xm, zcentre=zm, shear=f(-0.5, 0.5) / w / L / max(xm, 0.1) ** 2, Btor=f(0.7, 2))
    if t == "custom":
        flow = ["rotation", "shear", "hyperbolic", "wobble", "pendulum"][int(rng.integers(5))]
        if flow == "rotation":
            p = [f(-1.5, 1.5) / L, xm, zm]
        elif flow == "shear":
            p = [f(-0.3, 0.3) * w / L, f(-0.5, 0.5) / L, xm]
        elif flow == "hyperbolic":
            p = [f(-0.4, 0.4) / L, xm, zm]
        elif flow == "wobble":
            p = [f(-0.3, 0.3) * w / L, f(-0.3, 0.3) * w / L, f(0.5, 3) / L, f(-1, 1) / L, xm]
        else:
            p = [f(-0.3, 0.3) * w / L, f(0.5, 2) / w, xm]
        R = [None, "x", f(0.5, 3)][int(rng.integers(3))]
        if R == "x" and xrange[0] <= 0.2:
            R = None
        by = [
            {"kind": "const", "v": sgn() * f(0.5, 2)},
            {"kind": "var", "v": sgn() * f(0.5, 2), "kx": f(0.3, 2), "kz": f(0.3, 2), "ky": f(0.3, 2) / L},
        ][int(rng.integers(2))]
        return dict(type=t, flow=flow, p=p, R=R, By=by)
    raise ValueError(t)
