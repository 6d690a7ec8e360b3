"""C22: finite differences and field line length"""
import numpy as np

from lib.harness import rng_of

PROPERTY = "C22"
LEVEL = "exploration"
REPEAT = 30
TECHNIQUE = "runtime monitoring: results of every line of random arrays compared with exact derivatives of polynomials, harmonics and arc length quadrature"
RULE = (
    "Random polynomials of the stated degree and random harmonics along every axis of arrays of one to four dimensions, of length from the minimum on, float, float32 and integer, "
    "contiguous or not; unrelated data in the other lines. Curves with known lengths (circles, helices, straight lines off the axis, wavy lines) sampled in y. Non-trivial: always."
)
ASSUMPTIONS = ["arrays have at least three (second order) or five (fourth order) points along the axis"]


def cases(tier, rng):
    kinds = ["c2", "c4", "c2p", "c4p", "length", "lines"]
    return [dict(what=kinds[i % len(kinds)]) for i in range(480 if tier == "quick" else 12000)]


def run(case, m):
    from zoidberg import diff

    rng = rng_of(case)
    m.interesting()
    what = case["what"]
    if what == "length":
        return length(rng, m, diff)
    order = int(what[1]) if what != "lines" else int(rng.choice([2, 4]))
    f = diff.c2 if order == 2 else diff.c4
    nd = int(rng.integers(1, 5))
    axis = int(rng.integers(nd))
    ax = axis - nd if rng.random() < 0.3 else axis
    shape = [int(v) for v in rng.integers(1, 6, nd)]
    nmin = 3 if order == 2 else 5
    n = int(rng.choice([nmin, nmin + 1, nmin + 2, 10, 31]))
    shape[axis] = n
    m.note("call", dict(f=f.__name__, shape=shape, axis=ax))
    lines = [s for i, s in enumerate(shape) if i != axis]
    x = np.arange(n, dtype=float)
    m.saw("calls of " + f.__name__)
    if what == "lines":
        # each line on its own gives the same
        a = rng.normal(size=shape)
        per = bool(rng.integers(2))
        got = f(a, ax, periodic=per)
        want = np.apply_along_axis(lambda v: f(v, 0, periodic=per), axis, a)
        m.close(got, want, "lines are independent", rtol=1e-12)
        b = rng.normal(size=shape)
        m.close(f(2 * a - 3 * b, ax, periodic=per), 2 * got - 3 * f(b, ax, periodic=per), "linear", rtol=0, atol=1e-10)
        m.close(f(np.full(shape, 7.0), ax, periodic=per), np.zeros(shape), "constant", rtol=0, atol=1e-12)
        if not per:
            m.close(np.flip(f(np.flip(a, axis), ax), axis), -got, "reversal", rtol=0, atol=1e-12)
        else:
            k = int(rng.integers(1, n))
            m.close(f(np.roll(a, k, axis), ax, periodic=True), np.roll(got, k, axis), "rotation", rtol=0, atol=1e-12)
        m.saw("points", a.size)
        return
    if what.endswith("p"):
        # harmonics on a ring, with the known factor of the centred differences
        k = int(rng.integers(0, max(1, n // 2)))
        ph = rng.uniform(0, 6, lines)
        am = rng.uniform(0.5, 2, lines)
        h = 2 * np.pi * k / n
        a = am[..., None] * np.cos(h * x + ph[..., None])
        fac = np.sin(h) if order == 2 else (8 * np.sin(h) - np.sin(2 * h)) / 6
        want = -am[..., None] * fac * np.sin(h * x + ph[..., None])
        got = f(np.moveaxis(a, -1, axis), ax, periodic=True)
        m.close(got, np.moveaxis(want, -1, axis), "harmonics on a ring", rtol=0, atol=1e-11)
        m.saw("points", a.size)
        return
    deg = order
    ints = rng.random() < 0.25
    c = rng.integers(-3, 4, lines + [deg + 1]).astype(float)
    if not ints:
        c = c + rng.uniform(-1, 1, c.shape)
    s = 0.0 if ints else 0.5 * n
    a = sum(c[..., i, None] * (x - s) ** i for i in range(deg + 1))
    want = sum(i * c[..., i, None] * (x - s) ** (i - 1) for i in range(1, deg + 1))
    want = want + np.zeros(a.shape)
    a, want = np.moveaxis(a, -1, axis), np.moveaxis(want, -1, axis)
    if rng.random() < 0.5:
        a = np.ascontiguousarray(a)
    if ints:
        a = a.astype(int)
        m.saw("integer arrays")
    keep = a.copy()
    got = f(a, ax)
    m.close(got, want, "exact for polynomials of degree %d" % deg, rtol=0, atol=1e-11 * (1 + np.abs(a).max()))
    m.equal(a, keep, "input untouched")
    m.saw("points", a.size)
    m.saw("end points", 4 * int(np.prod(lines)))


def length(rng, m, diff):
    u = lambda lo, hi: float(rng.uniform(lo, hi))  # noqa
    n = int(rng.integers(9, 30))
    y0, dy = u(-3, 3), u(0.1, 2)
    t = np.linspace(0, 1, n)
    if rng.random() < 0.4:  # unevenly spaced
        t = t + 0.1 * np.sin(np.pi * t) / np.pi
    y = y0 + dy * t
    shape = [(), (4,), (3, 2)][int(rng.integers(3))]
    kind = ["circle", "helix", "straight", "wavy"][int(rng.integers(4))]
    v = lambda lo, hi: rng.uniform(lo, hi, shape)  # noqa
    Y = y.reshape((n,) + (1,) * len(shape))
    one = np.ones((n,) + shape)
    if kind in ("circle", "helix"):
        R = v(0.5, 3)
        p = v(-1, 1) if kind == "helix" else 0 * R
        RZ = np.stack([R * one, (p * Y) * one], -1)
        want = dy * np.sqrt(R**2 + p**2)
        tol = 1e-4
    elif kind == "straight":
        # X = a + s*cos(b), ...: a straight line in space passing at a distance
        a = v(1, 2)
        mid = y0 + 0.5 * dy
        t = Y - mid
        # R cos(y - mid) = a, height proportional to R sin(y - mid)
        tt = t * min(1.0, 1.6 / dy) if dy > 1.6 else t
        y = (mid + tt).reshape(n)
        R = a / np.cos(tt)
        sl = v(-1, 1)
        S = a * np.tan(tt)
        RZ = np.stack([R * one, (sl * S) * one], -1)
        want = np.abs(S[-1] - S[0]) * np.sqrt(1 + sl**2)
        tol = 1e-4
    else:
        A, B, k = v(1, 2), v(0.05, 0.2), v(0.5, 2)
        f = lambda yy: (A + B * np.sin(k * yy), B * np.cos(k * yy))  # noqa
        R, Z = f(Y)
        RZ = np.stack([R * one, Z * one], -1)
        q = y0 + dy * (np.arange(4000) + 0.5) / 4000
        q = q.reshape((-1,) + (1,) * len(shape))
        r = f(q)[0]
        ds = np.sqrt(r**2 + (B * k * np.cos(k * q)) ** 2 + (B * k * np.sin(k * q)) ** 2)
        want = ds.mean(0) * dy
        tol = 1e-4
    m.note("curve", kind)
    m.saw("field lines " + kind, int(np.prod(shape)))
    got = diff.field_line_length(RZ, y)
    m.close(got, np.asarray(want), "length of " + kind, rtol=tol)
    k = int(rng.integers(4, n - 4))
    a = diff.field_line_length(RZ[: k + 1], y[: k + 1]) + diff.field_line_length(RZ[k:], y[k:])
    m.close(a, got, "additive", rtol=1e-3 if kind == "straight" else 1e-4)
