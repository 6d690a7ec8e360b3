"""C01: following a field line solves dx/dy = R Bx/By, dz/dy = R Bz/By"""
import numpy as np

from lib import fields
from lib.harness import layout, rng_of

PROPERTY = "C01"
LEVEL = "exploration"
REPEAT = 14
TECHNIQUE = "runtime monitoring: online comparison of every returned position with a reference integration"
RULE = (
    "Random field (library and custom, Cartesian and cylindrical, y-dependent, either sign of By) x "
    "shape of the start points (scalar, scalar+array, lists, integers, 1D, 2D, 3D, in any memory layout, sizes around the "
    "multiples of 1000 where the code batches) x y sequence (2 to 12 entries, increasing, decreasing, "
    "unevenly spaced, repeated, not starting at 0) x rtol. Every returned position is compared with a "
    "DOP853 (or closed form) integration of the field written from its definition. Non-trivial: the lines "
    "move by more than 100 tolerances."
)
ASSUMPTIONS = [
    "scipy's DOP853 at rtol 1e-11 is the reference for the field line equation",
    "tolerance 1e-5 in a box of size 1 for the default accuracy of the tracer",
]
BIG = [999, 1000, 1001, 1499, 1500, 1999, 2000, 2001, 2500, 2999, 3000, 3001, 4100]


def cases(tier, rng):
    out = []
    n = 180 if tier == "quick" else 900
    shapes = ["scalar", "sx", "sz", "1d", "2d", "3d", "list", "int", "one"]
    for i in range(n):
        out.append(
            dict(
                kind="trace",
                shape=shapes[i % len(shapes)],
                ny=int(rng.integers(2, 13)),
                ydir=["up", "down", "uneven", "uneven-down", "repeat"][int(rng.integers(5))],
                y0=[0.0, float(rng.uniform(-7, 7))][int(rng.integers(2))],
                L=float(rng.choice([0.1, 1.0, 3.0, 10.0])),
                rtol=[None, 1e-10][int(rng.integers(2))],
                n=int(rng.integers(2, 40)),
            )
        )
    for i, N in enumerate(BIG if tier == "quick" else BIG * 4):
        out.append(
            dict(
                kind="batch",
                shape=["1d", "2d", "sx", "sz"][int(rng.integers(4))],
                ny=int(rng.integers(2, 5)),
                ydir=["up", "down", "uneven"][int(rng.integers(3))],
                y0=float(rng.uniform(-3, 3)),
                L=1.0,
                rtol=[None, 1e-10][int(rng.integers(2))],
                n=N,
            )
        )
    for i in range(8 if tier == "quick" else 60):
        out.append(dict(kind="reject"))
    for i in range(60 if tier == "quick" else 200):
        out.append(dict(kind="direction"))
    for i in range(6 if tier == "quick" else 40):
        out.append(dict(kind="rtol", n=int(rng.choice([7, 1200]))))
    for i in range(24 if tier == "quick" else 80):
        out.append(dict(kind="split", n=int(rng.integers(1, 60))))
    return out


def cost(c):
    return c.get("n", 0)


def ys_of(case, rng):
    ny, L = case["ny"], case["L"]
    d = case["ydir"]
    if d in ("up", "down"):
        y = np.linspace(0, L, ny)
    elif d == "repeat":
        y = np.linspace(0, L, ny)
        if ny > 2:
            y[1] = y[2]
    else:
        y = np.concatenate([[0], np.sort(rng.uniform(0.02, 1, ny - 1))]) * L
    if d in ("down", "uneven-down"):
        y = -y
    return case["y0"] + y


def starts(shape, n, rng, box):
    (x0, x1), (z0, z1) = box
    ux = lambda *s: rng.uniform(x0, x1, s)  # noqa
    uz = lambda *s: rng.uniform(z0, z1, s)  # noqa
    if shape == "scalar":
        return float(ux()), float(uz())
    if shape == "one":
        return ux(1), uz(1)
    if shape == "sx":
        return float(ux()), uz(n)
    if shape == "sz":
        return ux(n), float(uz())
    if shape == "1d":
        return ux(n), uz(n)
    if shape == "list":
        return list(ux(n)), list(uz(n))
    if shape == "int":
        return np.arange(1, 1 + n) % 2 + 1, np.zeros(n, dtype=int)
    if shape == "2d":
        a = int(np.floor(np.sqrt(n)))
        while n % a:
            a -= 1
        return ux(a, n // a), uz(a, n // a)
    if shape == "3d":
        return ux(2, 3, n), uz(2, 3, n)
    raise ValueError(shape)


BOX = ((0.6, 1.6), (-0.5, 0.5))
KINDS = ["slab", "curved", "straight", "ellipse", "screw", "custom", "custom", "custom"]


def run(case, m):
    import zoidberg as zb

    rng = rng_of(case)
    k = case["kind"]
    if k in ("trace", "batch"):
        spec = fields.random_spec(rng, KINDS, *BOX, length=case["L"])
        x, z = starts(case["shape"], case["n"], rng, BOX)
        if case["shape"] == "int":
            spec = fields.random_spec(rng, ["custom", "slab"], (1, 2), (-0.5, 0.5), length=case["L"])
        x, z = layout(rng, x), layout(rng, z)
        ys = ys_of(case, rng)
        m.note("field", spec)
        f = fields.build(spec)
        tr = zb.fieldtracer.FieldTracer(f)
        yin = [ys, list(ys)][int(rng.integers(2))]
        keep = [np.array(a, copy=True) for a in (x, z, yin)]
        got = tr.follow_field_lines(x, z, yin, rtol=case["rtol"])
        want = fields.trace(spec, np.atleast_1d(x), np.atleast_1d(z), ys)
        tol = 1e-5 if case["rtol"] is None else 1e-6
        m.close(got, want, "field line positions", rtol=0, atol=tol)
        m.close(got[0], want[0], "first entry is the start", rtol=1e-12, atol=1e-12)
        for a, b, nme in zip((x, z, yin), keep, "xzy"):
            m.equal(a, b, f"input {nme} unchanged")
        m.saw("lines followed", want[0, ..., 0].size)
        m.saw("positions", want[..., 0].size)
        m.interesting(np.max(np.abs(want - want[0])) > 100 * tol)
    elif k == "reject":
        f = zb.field.Slab()
        tr = zb.fieldtracer.FieldTracer(f)
        E = ValueError
        n = int(rng.integers(2, 9))
        a = rng.uniform(size=n)
        m.raises(E, lambda: tr.follow_field_lines(a, a, [0.0]), "a single y value")
        m.raises(E, lambda: tr.follow_field_lines(a, a, 1.0), "scalar y value")
        m.raises(E, lambda: tr.follow_field_lines(a, a, np.zeros((2, 2))), "2D y values")
        m.raises(E, lambda: tr.follow_field_lines(a, np.append(a, 0), [0, 1]), "different number of x and z")
        m.raises(
            E, lambda: tr.follow_field_lines(np.zeros((n, 3)), np.zeros((3, n + 1)), [0, 1]), "different shapes"
        )
        A = np.zeros((n, 10))
        m.raises(E, lambda: tr.follow_field_lines(A, A.T, [0, 1]), "transposed start points")
        m.raises(E, lambda: tr.follow_field_lines(A, A.ravel(), [0, 1]), "flattened start points")
        m.raises(E, lambda: tr.follow_field_lines(A, np.zeros((10 * n, 1)), [0, 1]), "same number, other shape")
        v = 10.0 ** -rng.uniform(9, 14) * rng.choice([-1, 1])
        hole = int(rng.integers(n))

        class Hole(zb.field.MagneticField):
            def Bxfunc(self, x, z, phi):
                return 0.1 + 0 * x

            Bzfunc = Bxfunc

            def Byfunc(self, x, z, phi):
                b = np.full(np.shape(x), -1.0 if v > 0 else 1.0)
                b[hole] = v
                return b

        m.raises(E, lambda: Hole().field_direction((a.copy(), a.copy()), 0.0), "By vanishing at one of the points")
        m.raises(E, lambda: zb.fieldtracer.FieldTracer(Hole()).follow_field_lines(a, a, [0, 1]), "following a line where By vanishes")
        bad = fields.build(dict(type="custom", flow="shear", p=[0, 0, 0], R=None, By={"kind": "const", "v": 1e-10}))
        m.raises(
            E, lambda: bad.field_direction((np.array([1.0]), np.array([1.0])), 0.0), "vanishing By"
        )
        m.interesting()
    elif k == "direction":
        spec = fields.random_spec(rng, KINDS, *BOX, length=1.0)
        f = fields.build(spec)
        d = fields.direction(spec)
        n = int(rng.integers(1, 30))
        y = float(rng.uniform(-9, 9))
        x, z = rng.uniform(*BOX[0], n), rng.uniform(*BOX[1], n)
        want = np.array(np.broadcast_arrays(*d(x, z, y), x)[:2])
        got = f.field_direction((x, z), y)
        m.close(np.array(np.broadcast_arrays(*got, x)[:2]), want, "direction", rtol=1e-9, atol=1e-11)
        flat = f.field_direction(np.column_stack((x, z)).flatten(), y, True)
        m.close(flat, want.T.flatten(), "flattened direction", rtol=1e-9, atol=1e-11)
        m.saw("directions", n)
        m.interesting(np.any(np.abs(want) > 1e-6))
    elif k == "rtol":
        # larger orbits: the error is set by rtol, not by the absolute
        # tolerance, and a requested accuracy beyond the default is delivered
        rad = 30.0
        w = float(rng.uniform(0.5, 1.5)) * float(rng.choice([-1, 1]))
        spec = dict(type="custom", flow="rotation", p=[w, 0.0, 0.0], R=None, By={"kind": "const", "v": 1.0})
        n = case["n"]
        th = rng.uniform(0, 2 * np.pi, n)
        x, z = rad * np.cos(th), rad * np.sin(th)
        ys = np.linspace(0, 5, 3)
        want = fields.trace(spec, x, z, ys)
        err = {}
        for rtol in (None, 1e-12):
            f = fields.build(spec)
            got = zb.fieldtracer.FieldTracer(f).follow_field_lines(x, z, ys, rtol=rtol)
            err[str(rtol)] = float(np.max(np.abs(got - want)))
        m.note("errors", err)
        m.check(err["None"] < 1e-3, "default accuracy reached", err=err)
        m.check(err["1e-12"] < 1e-5, "requested accuracy reached", err=err)
        m.saw("lines followed", 2 * n)
        m.interesting()
    elif k == "split":
        # the result does not depend on which points are traced together
        spec = fields.random_spec(rng, KINDS, *BOX, length=2.0)
        n = case["n"]
        x, z = rng.uniform(*BOX[0], n), rng.uniform(*BOX[1], n)
        y0 = float(rng.uniform(-3, 3))
        ys = y0 + np.array([0, 0.3, 1.1, 2.0]) * float(rng.choice([-1, 1]))
        tr = zb.fieldtracer.FieldTracer(fields.build(spec))
        full = tr.follow_field_lines(x, z, ys)
        perm = rng.permutation(n)
        m.close(tr.follow_field_lines(x[perm], z[perm], ys), full[:, perm], "order of the points", rtol=0, atol=2e-5)
        i = int(rng.integers(n))
        m.close(tr.follow_field_lines(x[i], z[i], ys)[:, 0], full[:, i], "single point", rtol=0, atol=2e-5)
        big = np.tile(x, 1000 // n + 1), np.tile(z, 1000 // n + 1)
        res = tr.follow_field_lines(*big, ys)
        m.close(res, np.tile(full, (1, 1000 // n + 1, 1)), "many points", rtol=0, atol=2e-5)
        # followed in two parts
        mid = tr.follow_field_lines(x, z, ys[:2])[-1]
        end = tr.follow_field_lines(mid[:, 0], mid[:, 1], ys[1:])[-1]
        m.close(end, full[-1], "followed in two parts", rtol=0, atol=4e-5)
        m.saw("lines followed", 4 * n)
        m.interesting()
