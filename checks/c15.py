"""C15: boundaries"""
from fractions import Fraction

import numpy as np

from lib.harness import rng_of

PROPERTY = "C15"
LEVEL = "exploration"
REPEAT = 20
TECHNIQUE = "runtime monitoring: every classification compared with an exact rational even-odd / winding oracle"
RULE = (
    "Random boxes and random simple polygons (triangles to 250 vertices, star shaped, narrow, finely resolved, combs and spirals that are far from convex, staircases with vertical and "
    "horizontal edges, either orientation, any start vertex), micrometres to kilometres, on a lattice so that many points are level with vertices and edges in both coordinates; points inside, "
    "outside, above, below, left and right, in arrays of zero to three dimensions. The oracle computes in rational arithmetic. Non-trivial: the case has points on both sides."
)
ASSUMPTIONS = ["points exactly on the edge of a polygon may be classified either way"]


def cases(tier, rng):
    kinds = ["star", "comb", "spiral", "stairs", "triangle", "rect", "none", "fine"]
    return [dict(kind=kinds[i % len(kinds)]) for i in range(400 if tier == "quick" else 10000)]


def polygon(kind, rng):
    """integer vertices of a simple polygon"""
    if kind == "triangle":
        while True:
            p = rng.integers(-8, 9, (3, 2))
            a = (p[1] - p[0])[0] * (p[2] - p[0])[1] - (p[1] - p[0])[1] * (p[2] - p[0])[0]
            if a != 0:
                return p
    if kind == "star":
        n = int(rng.integers(4, 40))
        t = (np.arange(n) + rng.uniform(0, 0.8, n)) * 2 * np.pi / n
        r = rng.uniform(6, 30, n)
        p = np.round(np.stack([r * np.cos(t), r * np.sin(t)], -1)).astype(int)
        return p
    if kind == "fine":
        # many short edges; simple, because the angle increases
        n = int(rng.integers(60, 250))
        t = (np.arange(n) + rng.uniform(0, 0.5, n)) * 2 * np.pi / n
        r = 4000 * (1 + rng.uniform(0, 0.4) * np.cos(int(rng.integers(2, 5)) * t)) * rng.uniform(0.99, 1, n)
        return np.round(np.stack([r * np.cos(t), r * np.sin(t)], -1)).astype(int)
    if kind == "comb":
        n = int(rng.integers(2, 7))
        pts = [(0, 0)]
        for i in range(n):
            h = int(rng.integers(2, 9))
            low = int(rng.integers(1, 2))
            pts += [(2 * i, h), (2 * i + 1, h)] if rng.random() < 0.5 else [(2 * i, h - 1), (2 * i + 1, h)]
            if i < n - 1:
                pts += [(2 * i + 1, low), (2 * i + 2, low)]
        pts.append((2 * n - 1, 0))
        p = np.array(pts)
        p = p[1:] if (p[0] == p[1]).all() else p
        if rng.random() < 0.5:
            p = p[:, ::-1]
        return p
    if kind == "spiral":
        # a rectangular spiral corridor of width one
        out = [(0, 0), (9, 0), (9, 9), (0, 9), (0, 2), (7, 2), (7, 7), (2, 7), (2, 4), (5, 4), (5, 5), (3, 5), (3, 6), (6, 6), (6, 3), (1, 3), (1, 8), (8, 8), (8, 1), (0, 1)]
        return np.array(out)
    if kind == "stairs":
        n = int(rng.integers(2, 9))
        up = rng.integers(1, 4, n)
        right = rng.integers(1, 4, n)
        pts = [(0, 0)]
        x, y = int(np.sum(right)), 0
        pts.append((x, 0))
        for u, r in zip(up, right):
            y += int(u)
            pts.append((x, y))
            x -= int(r)
            pts.append((x, y))
        return np.array(pts)
    raise ValueError(kind)


def simple(p):
    """No two edges touch except neighbours at their common vertex"""
    n = len(p)
    if len({tuple(q) for q in p.tolist()}) < n:
        return False

    def side(a, b, c):
        return int(np.sign((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])))

    def on(a, b, c):
        return side(a, b, c) == 0 and min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])

    P = p.tolist()
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = P[j], P[(j + 1) % n]
            if j == i + 1:
                if on(a, b, d) or on(c, d, a):
                    return False
            elif (j + 1) % n == i:
                if on(a, b, c) or on(c, d, b):
                    return False
            else:
                if side(a, b, c) * side(a, b, d) < 0 and side(c, d, a) * side(c, d, b) < 0:
                    return False
                if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
                    return False
    return True


def locate(P, x, y):
    """-1 outside, 0 on an edge, 1 inside; exact"""
    n = len(P)
    w = 0
    for i in range(n):
        (ax, ay), (bx, by) = P[i], P[(i + 1) % n]
        s = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
        if s == 0 and min(ax, bx) <= x <= max(ax, bx) and min(ay, by) <= y <= max(ay, by):
            return 0
        # winding number, crossing a ray in +x
        if (ay <= y) != (by <= y):
            if by > ay and s > 0:
                w += 1
            elif by < ay and s < 0:
                w -= 1
    return 1 if w else -1


def run(case, m):
    from zoidberg import boundary

    rng = rng_of(case)
    kind = case["kind"]
    shape = [(60,), (6, 10), (3, 4, 5), ()][int(rng.choice(4, p=[0.3, 0.4, 0.2, 0.1]))]
    n = int(np.prod(shape))
    y = [0.0, rng.uniform(0, 6, shape)][int(rng.integers(2))]
    if kind == "none":
        b = boundary.NoBoundary()
        got = b.outside(np.asarray(rng.normal(size=shape) * 1e3), y, np.asarray(rng.normal(size=shape)))
        m.check(np.shape(got) == shape, "shape", got=np.shape(got))
        m.check(np.asarray(got).dtype == bool and not np.any(got), "no boundary has no outside")
        m.saw("points", n)
        return
    if kind == "rect":
        lim = np.sort(rng.integers(-8, 9, (2, 2)) * 0.25, axis=1)
        lim[:, 1] += 0.25
        b = boundary.RectangularBoundaryXZ(lim[0, 0], lim[0, 1], lim[1, 0], lim[1, 1])
        x, z = [np.asarray(rng.integers(-12, 13, shape) * 0.25) for _ in range(2)]
        got = np.asarray(b.outside(x, y, z))
        want = (x < lim[0, 0]) | (x > lim[0, 1]) | (z < lim[1, 0]) | (z > lim[1, 1])
        m.note("limits", lim.tolist())
        if m.check(got.shape == shape, "shape", got=got.shape):
            m.equal(got, want, "rectangle")
        m.saw("points", n)
        m.saw("points on an edge", np.sum((x == lim[0, 0]) | (x == lim[0, 1]) | (z == lim[1, 0]) | (z == lim[1, 1])))
        m.interesting(want.any() and not want.all())
        return

    for _ in range(50):
        p = polygon(kind, rng)
        if kind == "fine" or simple(p):
            break
    else:
        p = polygon("triangle", rng)
    if rng.random() < 0.5:
        p = p[::-1]
    p = np.roll(p, int(rng.integers(len(p))), axis=0)
    if rng.random() < 0.3:
        p = p * [1, -1]
    if rng.random() < 0.3:
        p = p[:, ::-1]
    if kind == "star" and rng.random() < 0.3:
        # narrow: edges that are almost vertical
        p = p * [1, int(rng.choice([50, 5000]))]
    # to the plane, exactly representable
    scale = float(rng.choice([2.0**-20, 2.0**-9, 0.125, 0.25, 1.0, 64.0]))
    off = rng.integers(-20, 21, 2) * 0.5
    m.note("polygon", p.tolist())
    V = p * scale + off
    xarr, zarr = V[:, 0].copy(), V[:, 1].copy()
    if rng.random() < 0.3:
        b = boundary.PolygonBoundaryXZ(list(map(float, xarr)), list(map(float, zarr)))
    else:
        b = boundary.PolygonBoundaryXZ(xarr, zarr)
    lo, hi = p.min(0) - 3, p.max(0) + 3
    q = np.empty((n, 2))
    for i in range(n):
        s = rng.random()
        if s < 0.5:  # lattice
            q[i] = rng.integers(lo, hi + 1)
        elif s < 0.7:
            q[i] = rng.integers(2 * lo, 2 * hi + 1) / 2
        elif s < 0.8:  # level with a vertex
            v = p[int(rng.integers(len(p)))]
            k = int(rng.integers(2))
            q[i] = rng.uniform(lo, hi)
            q[i, k] = v[k]
        else:
            q[i] = rng.uniform(lo, hi)
    q = np.round(q * 2**20) / 2**20
    P = [(Fraction(int(a)), Fraction(int(c))) for a, c in p]
    side = np.array([locate(P, Fraction(float(a)), Fraction(float(c))) for a, c in q])
    X = np.asarray((q[:, 0] * scale + off[0]).reshape(shape))
    Z = np.asarray((q[:, 1] * scale + off[1]).reshape(shape))
    # points too near an edge for rounding are not judged
    near = np.zeros(n, dtype=bool)
    for i in range(len(p)):
        a, c = p[i].astype(float), p[(i + 1) % len(p)].astype(float)
        t = np.clip(((q - a) @ (c - a)) / ((c - a) @ (c - a)), 0, 1)
        near |= np.hypot(*(q - a - t[:, None] * (c - a)).T) < 1e-6
    got = np.asarray(b.outside(X, y, Z))
    if not m.check(got.shape == shape and got.dtype == bool, "shape and type", got=[got.shape, str(got.dtype)]):
        return
    j = ~near
    m.saw("points", int(j.sum()))
    level = np.isin(q[:, 0], p[:, 0]) | np.isin(q[:, 1], p[:, 1])
    m.saw("points level with a vertex", int((j & level).sum()))
    m.saw("polygons " + kind)
    m.equal(got.ravel()[j], (side < 0)[j], "outside", points=q[j][got.ravel()[j] != (side < 0)[j]][:3])
    m.interesting((side[j] < 0).any() and (side[j] > 0).any())
    # the same object answers the same again, and the way the points are arranged does not matter
    m.equal(np.asarray(b.outside(X, y, Z)), got, "same again")
    if shape != ():
        flat = np.asarray(b.outside(X.ravel(), 1.0, Z.ravel()))
        m.equal(flat, got.ravel(), "independent of the arrangement")
    m.equal(xarr, V[:, 0], "vertices untouched")
