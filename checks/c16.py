"""C16: magnetic field models"""
from math import factorial

import numpy as np

from lib import fields
from lib.harness import rng_of

PROPERTY = "C16"
LEVEL = "exploration"
REPEAT = 5
TECHNIQUE = "runtime monitoring: field values compared with closed forms, boundary (Cauchy) data and Maxwell's equations, with earlier objects re-read after later ones were made"
RULE = (
    "Random parameters (both signs) and positions in arrays of one to three dimensions for every analytic model; random Dommaschk modes (toroidal 0 to 6, poloidal 0 to 9, "
    "several at once), judged by their documented boundary values at R = R_0 and by divergence and curl elsewhere; random smooth equilibria written to GEQDSK files of "
    "different numbers of points in R and Z, read back. Several objects are alive at once and re-evaluated at the end. Non-trivial: always."
)
ASSUMPTIONS = ["positions are given as arrays", "derivatives for divergence and curl are taken numerically to fourth order"]
BOX = ((0.6, 1.6), (-0.5, 0.5))


def cases(tier, rng):
    kinds = ["slab", "curved", "straight", "ellipse", "screw", "dommaschk", "dommaschk", "geqdsk", "base"]
    return [dict(kind=kinds[i % len(kinds)]) for i in range(198 if tier == "quick" else 3600)]


def cost(case):
    return 3 if case["kind"] in ("dommaschk", "geqdsk") else 1


def positions(rng, n=None):
    shape = [(12,), (3, 4), (2, 3, 2), (1,)][int(rng.integers(4))]
    return rng.uniform(*BOX[0], shape), rng.uniform(*BOX[1], shape), rng.uniform(-7, 7, shape)


def evaluate(f, x, z, y):
    one = np.ones(x.shape)
    R = f.Rfunc(x, z, y)
    return [f.Bxfunc(x, z, y) * one, f.Byfunc(x, z, y) * one, f.Bzfunc(x, z, y) * one, f.Bmag(x, z, y) * one, None if R is None else R * one]


def compare(m, f, x, z, y, want, name, rtol=1e-9):
    got = evaluate(f, x, z, y)
    Bx, By, Bz, R = want
    scale = np.sqrt(Bx**2 + By**2 + Bz**2)
    for g, w, what in ((got[0], Bx, "Bx"), (got[1], By, "By"), (got[2], Bz, "Bz"), (got[3], scale, "Bmag")):
        m.close(g / scale, (w + 0 * x) / scale, f"{name}: {what}", rtol=0, atol=rtol)
    if R is None:
        m.check(got[4] is None, name + ": Cartesian")
    else:
        m.close(got[4], R + 0 * x, name + ": major radius", rtol=1e-12)
    m.saw("field values", 4 * x.size)
    return got


def cylindrical_div_curl(f, x, z, y, h=2e-3):
    """(divergence, curl) at points, fourth order differences"""

    def d(fun, i):
        def at(s):
            a = [x, z, y]
            a[i] = a[i] + s * h
            return fun(*a)

        return (-at(2) + 8 * at(1) - 8 * at(-1) + at(-2)) / (12 * h)

    one = np.ones(x.shape)
    B = lambda k: (lambda *a: getattr(f, k)(*a) * one)  # noqa
    Bx, By, Bz = B("Bxfunc"), B("Byfunc"), B("Bzfunc")
    div = d(lambda x, z, y: x * Bx(x, z, y), 0) / x + d(By, 2) / x + d(Bz, 1)
    cR = d(Bz, 2) / x - d(By, 1)
    cphi = d(Bx, 1) - d(Bz, 0)
    cZ = d(lambda x, z, y: x * By(x, z, y), 0) / x - d(Bx, 2) / x
    return div, cR, cphi, cZ


def dommaschk(rng, m):
    import zoidberg as zb

    nm = int(rng.integers(1, 4))
    modes = {}
    for _ in range(nm):
        modes[(int(rng.integers(0, 7)), int(rng.integers(0, 6)))] = rng.uniform(-0.3, 0.3, 4) * (rng.random(4) < 0.7)
    if rng.random() < 0.3:
        # a mode of high order, as strong as the others away from the midplane
        k = int(rng.integers(0, 5)), int(rng.integers(6, 10))
        modes = {k: rng.uniform(-0.3, 0.3, 4) * rng.choice([[1, 1, 0, 0], [0, 0, 1, 1]]) * factorial(k[1] - 1) / 0.5 ** (k[1] - 1)}
    M, L = max(k[0] for k in modes) + 1, max(k[1] for k in modes) + 1
    A = np.zeros((M, L, 4))
    for k, v in modes.items():
        A[k] = v
    R0 = float(rng.choice([1.0, rng.uniform(0.8, 4)]))
    B0 = float(rng.choice([1.0, -1, rng.uniform(0.5, 3)]))
    m.note("modes", [[*k, *map(float, v)] for k, v in modes.items()])
    m.note("R0, B0", [R0, B0])
    keep = A.copy()
    f = zb.field.DommaschkPotentials(A, R0, B0)
    m.equal(A, keep, "coefficients untouched")

    # Boundary values at R = R_0: in units of R_0 the potential there is
    #   phi + sum (a cos + b sin) Z^l / l!
    # and its radial derivative sum (c cos + d sin) Z^(l-1) / (l-1)!
    def mono(s, k):
        return s**k / factorial(k) if k >= 0 else 0 * s

    def data(s, p):
        bx, by, bz = 0 * s, 1 + 0 * s, 0 * s
        for (n, l), (a, b, c, d) in modes.items():
            bx = bx + (c * np.cos(n * p) + d * np.sin(n * p)) * mono(s, l - 1)
            bz = bz + (a * np.cos(n * p) + b * np.sin(n * p)) * mono(s, l - 1)
            by = by + n * (b * np.cos(n * p) - a * np.sin(n * p)) * mono(s, l)
        return bx, by, bz

    n0 = data(np.zeros(1), np.zeros(1))[1][0]
    if abs(n0) < 0.1:
        return
    z = rng.uniform(-0.4, 0.4, 40)
    p = rng.uniform(-7, 7, 40)
    want = data(z, p)
    x = np.full(40, R0)
    for k, w in zip(("Bxfunc", "Byfunc", "Bzfunc"), want):
        got = getattr(f, k)(x, z * R0, p) * np.ones(40)
        m.close(got, w * B0 / n0, "Dommaschk at R = R_0: " + k, rtol=1e-7, atol=1e-7 * abs(B0 / n0))
    m.close(f.Byfunc(np.array([R0]), np.zeros(1), np.zeros(1)) * np.ones(1), [B0], "Dommaschk: B_0 on axis", rtol=1e-9)
    x, z, p = R0 * rng.uniform(0.75, 1.3, 30), R0 * rng.uniform(-0.3, 0.3, 30), rng.uniform(0, 6, 30)
    B = f.Bmag(x, z, p)
    for e, what in zip(cylindrical_div_curl(f, x, z, p), ("divergence", "curl R", "curl phi", "curl Z")):
        m.close(e / (B.max() + abs(B0)) * R0, 0 * e, "Dommaschk: " + what, rtol=0, atol=1e-5)
    m.close(f.Rfunc(x, z, p), x, "Dommaschk: major radius")
    m.close(B, np.sqrt(sum((getattr(f, k)(x, z, p) * np.ones(30)) ** 2 for k in ("Bxfunc", "Byfunc", "Bzfunc"))), "Dommaschk: Bmag")
    m.saw("Dommaschk modes", len(modes))
    if rng.random() < 0.35:
        # the surface invariant is constant along the field to first order
        eps, h = 1e-4, 2e-3
        w = zb.field.DommaschkPotentials(A * eps, R0, B0)

        def d(i):
            def at(s):
                a = [x, z, p]
                a[i] = a[i] + s * h
                return w.Sfunc(*a) * np.ones(30)

            return (-at(2) + 8 * at(1) - 8 * at(-1) + at(-2)) / (12 * h)

        Bx, By, Bz = (getattr(w, k)(x, z, p) * np.ones(30) for k in ("Bxfunc", "Byfunc", "Bzfunc"))
        D = (Bx * d(0) + Bz * d(1)) * x / By + d(2)
        # what the invariant without modes changes by
        T = (Bx * np.log(x / R0) / x + Bz * z / R0**2) * x / By
        m.close(D, 0 * D, "Dommaschk: surface invariant", rtol=0, atol=0.02 * np.max(np.abs(T)) + 1e-11)
        s0 = 0.5 * (np.log(x / R0) ** 2 + (z / R0) ** 2)
        m.close(w.Sfunc(x, z, p) * np.ones(30), s0, "Dommaschk: surface invariant of weak modes", rtol=0, atol=0.05)
        m.saw("surface invariants")
    m.saw("field values", 400)
    return f, (x, z, p)


def geqdsk(rng, m):
    from freeqdsk import geqdsk as gq

    import zoidberg as zb

    u = lambda lo, hi: float(rng.uniform(lo, hi))  # noqa
    nx, ny = int(rng.integers(34, 66)), int(rng.integers(34, 66))
    rleft, rdim, zdim, zmid = u(0.3, 0.8), u(1.2, 1.8), u(1.5, 2.5), u(-0.3, 0.3)
    R0, Z0 = rleft + 0.5 * rdim * u(0.9, 1.1), zmid + u(-0.1, 0.1)
    kap, tri, amp, off = u(0.9, 1.6), u(-0.2, 0.2), u(0.5, 2) * float(rng.choice([-1, 1])), u(-0.5, 0.5)
    # flux: zero on axis, one at minor radius a
    a = 0.32 * min(rdim, zdim / kap)
    s = lambda R, Z: ((R - R0) / a) ** 2 * (1 + tri * (R - R0)) + ((Z - Z0) / (kap * a)) ** 2  # noqa
    sR = lambda R, Z: 2 * (R - R0) / a**2 * (1 + tri * (R - R0)) + tri * ((R - R0) / a) ** 2  # noqa
    sZ = lambda R, Z: 2 * (Z - Z0) / (kap * a) ** 2  # noqa
    r1, z1 = np.linspace(rleft, rleft + rdim, nx), np.linspace(zmid - zdim / 2, zmid + zdim / 2, ny)
    RR, ZZ = np.meshgrid(r1, z1, indexing="ij")
    f0, f1, p0, p1 = u(1, 3), u(-0.3, 0.3), u(100, 2000), u(0, 500)
    t = np.linspace(0, 2 * np.pi, 200, endpoint=False)
    # contour s = 1
    c = np.ones(200) * a
    for _ in range(60):
        R, Z = R0 + c * np.cos(t), Z0 + c * np.sin(t)
        g = sR(R, Z) * np.cos(t) + sZ(R, Z) * np.sin(t)
        c = c - (s(R, Z) - 1) / g
    Rb, Zb = R0 + c * np.cos(t), Z0 + c * np.sin(t)
    lim = 1.2
    Rl, Zl = R0 + lim * c[::10] * np.cos(t[::10]), Z0 + lim * c[::10] * np.sin(t[::10])
    few = int(rng.choice([0, 0, 3, 4, 5]))
    if few:
        # a limiter of a few points
        tl = rng.uniform(0, 2 * np.pi) + 2 * np.pi * np.arange(few) / few
        Rl, Zl = R0 + 3 * a * np.cos(tl), Z0 + 3 * kap * a * np.sin(tl)
    q = np.linspace(0, 1, nx)
    data = dict(
        comment="", shot=1, nx=nx, ny=ny, rdim=rdim, zdim=zdim, rcentr=R0, rleft=rleft, zmid=zmid, rmagx=R0, zmagx=Z0,
        simagx=off, sibdry=off + amp, bcentr=f0 / R0, cpasma=1e5, fpol=f0 + f1 * q, pres=p0 * (1 - q) ** 2 + p1, ffprime=0 * q, pprime=0 * q,
        psi=off + amp * s(RR, ZZ), qpsi=1 + q, nbdry=200, nlim=len(Rl), rbdry=Rb, zbdry=Zb, rlim=Rl, zlim=Zl,
    )  # fmt: skip
    limited = rng.random() < 0.8
    if not limited:
        del data["rlim"], data["zlim"]
        data["nlim"] = 0
    with open("eq.geqdsk", "w") as fh:
        gq.write(data, fh)
    m.note("equilibrium", dict(nx=nx, ny=ny, R0=R0, Z0=Z0, kappa=kap, tri=tri, amp=amp))
    f = zb.field.GEQDSK("eq.geqdsk")
    k = rng.uniform(0, 1, 40)
    w = rng.uniform(0, 2 * np.pi, 40)
    rho = 0.75 * np.sqrt(k) * np.interp(w, t, c, period=2 * np.pi)
    x, z = (R0 + rho * np.cos(w)).reshape(8, 5), (Z0 + rho * np.sin(w)).reshape(8, 5)
    S = s(x, z)
    want = (-amp * sZ(x, z) / x, (f0 + f1 * S) / x, amp * sR(x, z) / x, x)
    compare(m, f, x, z, 0.3, want, "GEQDSK", rtol=2e-3)
    m.close(f.pressure(x, z, 0.0), p0 * (1 - S) ** 2 + p1, "GEQDSK: pressure", rtol=0, atol=2e-2 * p0)
    m.close(f.attributes["psi"](x, z, 0.0), off + amp * S, "GEQDSK: psi", rtol=0, atol=1e-5 * abs(amp))
    # well inside, where the edge of the core does not show in the splines
    # (their ripples decay by 0.27 from one grid point to the next)
    h = max(rdim / (nx - 1), zdim / (ny - 1))
    rho = np.clip(1 - 7 * h / np.min(c), 0.05, 0.5) * np.sqrt(k) * np.interp(w, t, c, period=2 * np.pi)
    xi, zi = R0 + rho * np.cos(w), Z0 + rho * np.sin(w)
    Si = s(xi, zi)
    m.close(f.Byfunc(xi, zi, 0.0) * xi - f0, f1 * Si, "GEQDSK: toroidal field in the core", rtol=0, atol=1e-3 * abs(f1) + 1e-7)
    m.close(f.pressure(xi, zi, 0.0), p0 * (1 - Si) ** 2 + p1, "GEQDSK: pressure in the core", rtol=0, atol=2e-3 * p0)
    # outside the core: the boundary values
    far = 1.18 * np.interp(w, t, c, period=2 * np.pi)
    xo, zo = R0 + far * np.cos(w), Z0 + far * np.sin(w)
    inside = (xo > r1[2]) & (xo < r1[-3]) & (zo > z1[2]) & (zo < z1[-3])
    By = f.Byfunc(xo, zo, 0.0)
    m.close((By * xo)[inside], np.full(inside.sum(), f0 + f1), "GEQDSK: toroidal field outside the core", rtol=0, atol=0.05 * abs(f1) + 1e-9)
    m.close(f.pressure(xo, zo, 0.0)[inside], np.full(inside.sum(), p1), "GEQDSK: pressure outside the core", rtol=0, atol=0.05 * p0)
    # divergence free: psi is a flux function
    div = cylindrical_div_curl(f, x.ravel(), z.ravel(), np.zeros(40), h=5e-3)[0]
    m.close(div * a / abs(amp), 0 * div, "GEQDSK: divergence", rtol=0, atol=1e-3)
    # limiter
    r = rng.choice([0.5, 0.9, 1.1, 1.5, 2.0], 40)
    xl, zl = R0 + lim * r * np.interp(w, t, c, period=2 * np.pi) * np.cos(w), Z0 + lim * r * np.interp(w, t, c, period=2 * np.pi) * np.sin(w)
    if few:
        # distance to the sides, in units of the distance of the corners
        wl = np.max([np.cos(w - tl[0] - np.pi * (2 * i + 1) / few) for i in range(few)], axis=0) / np.cos(np.pi / few)
        xl, zl = R0 + 3 * a * r / wl * np.cos(w), Z0 + 3 * kap * a * r / wl * np.sin(w)
    m.equal(f.boundary.outside(xl, 0.0, zl), (r > 1) & limited, "GEQDSK: limiter")
    m.equal(zb.field.MagneticField.boundary.outside(xl, 0.0, zl), np.zeros(40, dtype=bool), "other fields keep their boundary")
    m.check("psi" not in zb.field.MagneticField.attributes and "psi" not in zb.field.Slab().attributes, "other fields keep their attributes")
    m.saw("GEQDSK files")
    return f, (x, z, 0.3)


def base(rng, m):
    """Bmag and field_direction of the base class for a user's field"""
    from zoidberg import field

    spec = fields.random_spec(rng, ["custom"], *BOX, length=1.0)
    m.note("field", spec)
    f = fields.build(spec)
    x, z, _ = positions(rng)
    x, z = x.ravel(), z.ravel()
    y = float(rng.uniform(-5, 5))
    ux, uz = fields.direction(spec)(x, z, y)
    got = f.field_direction(np.stack([x, z]), y)
    m.close(got[0], ux + 0 * x, "direction x", rtol=1e-9, atol=1e-10)
    m.close(got[1], uz + 0 * x, "direction z", rtol=1e-9, atol=1e-10)
    flat = np.column_stack([x, z]).flatten()
    keep = flat.copy()
    got = np.asarray(f.field_direction(flat, y, flatten=True))
    m.close(got, np.column_stack([ux + 0 * x, uz + 0 * x]).flatten(), "direction flattened", rtol=1e-9, atol=1e-10)
    m.equal(flat, keep, "positions untouched")

    # a field giving all components at once
    comp = fields.components(spec)

    class All(type(f)):
        def Bxyzfunc(self, x, z, y):
            return comp(x, z, y)[:3]

        def Bxfunc(self, x, z, y):
            raise AssertionError("should use Bxyzfunc")

    got = All().field_direction(np.stack([x, z]), y)
    m.close(got[0], ux + 0 * x, "direction x from Bxyzfunc", rtol=1e-9, atol=1e-10)

    # vanishing toroidal field anywhere is refused
    class Zero(type(f)):
        def Byfunc(self, x, z, y):
            b = np.ones(np.shape(x)) * float(rng.choice([-1, 1]))
            b.flat[int(rng.integers(b.size))] = float(rng.choice([0.0, 1e-10, -1e-9]))
            return b

        if hasattr(f, "Bxyzfunc"):

            def Bxyzfunc(self, x, z, y):
                return self.Bxfunc(x, z, y), self.Byfunc(x, z, y), self.Bzfunc(x, z, y)

    m.raises(ValueError, lambda: Zero().field_direction(np.stack([x, z]), y), "vanishing By")
    d = field.MagneticField()
    m.equal(d.pressure(x, z, y) + 0 * x, np.zeros(x.shape), "default pressure")
    m.equal(d.Byfunc(x, z, y) + 0 * x, np.ones(x.shape), "default By")
    m.equal(d.Bxfunc(x, z, y) + 0 * x, np.zeros(x.shape), "default Bx")
    m.check(d.Rfunc(x, z, y) is None, "default is Cartesian")
    m.saw("field values", 5 * x.size)
    return f, (x, z, y)


def run(case, m):
    rng = rng_of(case)
    m.interesting()
    alive = []

    def remember(f, at):
        alive.append((f, at, evaluate(f, *at)))

    def one(kind):
        m.saw("objects " + kind)
        if kind in ("dommaschk", "geqdsk", "base"):
            r = globals()[kind](rng, m)
            if r:
                remember(r[0], r[1])
            return
        x, z, y = positions(rng)
        spec = fields.random_spec(rng, [kind], *BOX, length=1.0)
        if kind == "straight":
            if rng.random() < 0.3:
                spec.update(xcentre=0.0, zcentre=0.0, radius=3.0)
        m.note("field", spec)
        f = fields.build(spec)
        compare(m, f, x, z, y, fields.components(spec)(x, z, y), kind)
        if kind in ("straight", "ellipse"):
            # the vector potential belongs to the field
            h = 1e-4
            dAz = (f.Afunc(x, z + h, y) - f.Afunc(x, z - h, y)) / (2 * h)
            dAx = (f.Afunc(x + h, z, y) - f.Afunc(x - h, z, y)) / (2 * h)
            s = np.max(np.hypot(f.Bxfunc(x, z, y), f.Bzfunc(x, z, y)))
            m.close(-dAz / s, f.Bxfunc(x, z, y) / s, kind + ": vector potential", rtol=0, atol=1e-5)
            m.close(dAx / s, f.Bzfunc(x, z, y) / s, kind + ": vector potential", rtol=0, atol=1e-5)
            # coils return after a period
            m.close(f.Bxfunc(x, z, y + spec["yperiod"]) / s, f.Bxfunc(x, z, y) / s, kind + ": period", rtol=0, atol=1e-9)
        if kind == "screw":
            # no field through circles
            dx, dz = x - spec["xcentre"], z - spec["zcentre"]
            m.close((f.Bxfunc(x, z, y) * dx + f.Bzfunc(x, z, y) * dz), 0 * x, "screw: circular surfaces", rtol=0, atol=1e-12)
        m.check(f.attributes == {}, "no attributes of others")
        m.close(np.asarray(f.pressure(x, z, y)) + 0 * x, 0 * x, "no pressure")
        remember(f, (x, z, y))

    one(case["kind"])
    # other objects, then the earlier ones again
    for _ in range(int(rng.integers(1, 3))):
        one(["slab", "curved", "straight", "ellipse", "screw"][int(rng.integers(5))])
    for f, at, before in alive:
        for a, b in zip(evaluate(f, *at), before):
            if b is not None:
                m.equal(a, b, "unchanged by other objects")
        m.saw("re-evaluations")
