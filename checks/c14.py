"""C14: closed lines in the R-Z plane"""
import numpy as np

from lib import curves
from lib.harness import layout, rng_of

PROPERTY = "C14"
LEVEL = "exploration"
REPEAT = 20
TECHNIQUE = "runtime monitoring: every value of a line compared with an independent periodic spline, arc length quadrature and exhaustive closest point search"
RULE = (
    "Random smooth closed curves (either orientation, unevenly spaced points, 8 to 90 points, lists and integer-like arrays) and random permutations of their "
    "points, spline orders 1, 3 and 5, parameters negative and beyond a turn, points near and far. Non-trivial: always."
)
ASSUMPTIONS = [
    "the closest point is exact for the polygon through the points, up to the resolution of its search",
    "recovering the order of unordered points is judged for curves sampled finely and evenly",
]


def cases(tier, rng):
    kinds = ["few", "values", "distance", "closest", "order", "spectral", "shapes", "smoothed"]
    return [dict(what=kinds[i % len(kinds)]) for i in range(420 if tier == "quick" else 6000)]


def fine_length(r, z, w=None):
    """cumulative arc length at the points of the line (including the end)"""
    n = len(r.x) - 1
    s = 64
    t = np.linspace(0, 2 * np.pi, n * s + 1)
    h = t[1] - t[0]
    mid = t[:-1] + 0.5 * h
    f = lambda t: np.hypot(r(t, 1), z(t, 1))  # noqa
    if w is None:
        seg = h / 6 * (f(t[:-1]) + 4 * f(mid) + f(t[1:]))
    else:
        W = lambda u: np.interp(u % (2 * np.pi), np.linspace(0, 2 * np.pi, len(w) + 1), np.append(w, w[0]))  # noqa
        seg = h * f(mid) * W(mid)
    return np.insert(np.cumsum(seg), 0, 0)[::s], np.insert(np.cumsum(seg), 0, 0), t


def few(rng, m):
    """polygons of a few, very uneven points, anywhere in the plane"""
    for i in range(40):
        R, Z = uneven_polygon(rng, int(rng.integers(3, 8)))
        orientation(m, R, Z, rng)
    m.saw("lines through a few uneven points")
    values(rng, m, uneven_polygon(rng, int(rng.integers(4, 12))))


def orientation(m, R, Z, rng):
    from zoidberg import rzline

    want = curves.anticlockwise(R, Z)
    m.note("points", [R, Z])
    line = rzline.RZline(R, Z, spline_order=1)
    m.equal(np.array([line.R, line.Z]), np.array(want), "anticlockwise through the points")
    line = rzline.RZline(R, Z, spline_order=1, anticlockwise=False)
    m.equal(np.array([line.R, line.Z]), np.array([R, Z]), "in the given order through the points")


def uneven_polygon(rng, n):
    while True:
        t = np.sort(rng.uniform(0, 2 * np.pi, n))
        gap = np.diff(np.append(t, t[0] + 2 * np.pi))
        if np.max(gap) < 2.9 and np.min(gap) > 0.02:
            break
    r = rng.uniform(0.4, 1.2, n) * float(rng.choice([0.1, 1.0, 5.0]))
    x0, z0 = rng.uniform(-8, 8, 2)
    R, Z = x0 + r * np.cos(t), z0 + r * np.sin(t)
    if rng.random() < 0.5:
        R, Z = R[::-1], Z[::-1]
    k = int(rng.integers(n))
    return np.roll(R, k), np.roll(Z, k)


def values(rng, m, pts=None):
    from zoidberg import rzline

    n = int(rng.integers(8, 90))
    c = curves.random_curve(rng, 1.0, n, float(rng.uniform(0.5, 4)), float(rng.uniform(-1, 1)))
    R, Z = curves.points(c)
    if pts is not None:
        R, Z = pts
        n = len(R)
        c = dict(R=R.tolist(), Z=Z.tolist())
    order = [3, 3, 1, 5][int(rng.integers(4 if n > 6 else 3))]
    acw = bool(rng.random() < 0.7)
    kw = {} if order == 3 else {"spline_order": order}
    if not acw:
        kw["anticlockwise"] = False
    m.note("curve", c)
    m.note("kw", kw)
    line = rzline.RZline(list(R) if rng.random() < 0.3 else layout(rng, R), layout(rng, Z), **kw)
    if acw:
        R, Z = curves.anticlockwise(R, Z)
    m.saw("lines of spline order %d" % order)
    m.equal(line.R, R, "points R")
    m.equal(line.Z, Z, "points Z")
    th = 2 * np.pi * np.arange(n) / n
    m.close(line.theta, th, "theta", atol=1e-12)
    for a, b in ((line.Rvalue(), R), (line.Zvalue(), Z), (line.Rvalue(th), R), (line.Zvalue(th), Z)):
        m.close(a, b, "passes through the points", atol=1e-9)
    a = line.position()
    m.close(a[0], R, "position at the points", atol=1e-9)
    m.close(a[1], Z, "position at the points", atol=1e-9)
    t = rng.uniform(-30, 30, (5, 20))
    t[0, :4] = [0, 2 * np.pi, -2 * np.pi, 4 * np.pi]
    pos = line.position(t)
    again = line.position(t + 2 * np.pi * rng.integers(-3, 4, t.shape))
    m.close(again[0], pos[0], "periodic", atol=1e-9)
    m.close(again[1], pos[1], "periodic", atol=1e-9)
    m.equal(pos[0], line.Rvalue(t), "position is Rvalue")
    m.equal(pos[1], line.Zvalue(t), "position is Zvalue")
    m.saw("positions", t.size)

    # polygon
    k = np.floor(t / (2 * np.pi) * n).astype(int)
    f = t / (2 * np.pi) * n - k
    P = [(1 - f) * v[k % n] + f * v[(k + 1) % n] for v in (R, Z)]
    q = line.positionPolygon(t)
    m.close(q[0], P[0], "polygon R", atol=1e-9)
    m.close(q[1], P[1], "polygon Z", atol=1e-9)
    q = line.positionPolygon()
    m.equal(q[0], R, "polygon at the points")
    m.equal(q[1], Z, "polygon at the points")
    s = float(rng.uniform(-10, 10))
    q = line.positionPolygon(s)
    j = int(np.floor(s / (2 * np.pi) * n))
    f = s / (2 * np.pi) * n - j
    m.close(q[0], (1 - f) * R[j % n] + f * R[(j + 1) % n], "polygon, scalar", atol=1e-9)
    if order == 1:
        m.close(pos[0], P[0], "order one is the polygon", atol=1e-9)
        m.close(pos[1], P[1], "order one is the polygon", atol=1e-9)
    if order == 3:
        r, z = curves.spline(R, Z)
        u = np.mod(t, 2 * np.pi)
        m.close(pos[0], r(u), "cubic spline R", atol=1e-9)
        m.close(pos[1], z(u), "cubic spline Z", atol=1e-9)
        m.close(line.Rvalue(t, deriv=1), r(u, 1), "first derivative", rtol=1e-7, atol=1e-8)
        m.close(line.Zvalue(t, deriv=1), z(u, 1), "first derivative", rtol=1e-7, atol=1e-8)
        m.close(line.Zvalue(t, deriv=2), z(u, 2), "second derivative", rtol=1e-6, atol=1e-6)
    if order > 1 and n > 30:
        # smooth through the seam
        e = 1e-6
        d = line.Rvalue(np.array([-e, e, 2 * np.pi - e]), deriv=1)
        m.close(d, np.full(3, d[1]), "smooth at the seam", rtol=1e-3, atol=1e-3)


def distance(rng, m):
    from zoidberg import rzline

    n = int(rng.integers(20, 90))
    c = curves.random_curve(rng, float(rng.uniform(0.1, 3)), n, 2.0)
    R, Z = curves.anticlockwise(*curves.points(c))
    m.note("curve", c)
    r, z = curves.spline(R, Z)
    line = rzline.RZline(R, Z)
    ref, fine, t = fine_length(r, z)
    sample = [20, 20, 5, 50][int(rng.integers(4))]
    d = line.distance() if sample == 20 else line.distance(sample=sample)
    m.close(d, ref, "distance", rtol=2e-3 if sample < 20 else 2e-4, atol=1e-12 + ref[-1] * 1e-5)
    m.equal(d[0], 0.0, "distance starts at zero")
    m.check(np.diff(d) > 0, "distance increases")
    m.saw("distances", d.size)
    lin = rzline.RZline(R, Z, spline_order=1)
    seg = np.hypot(np.roll(R, -1) - R, np.roll(Z, -1) - Z)
    m.close(lin.distance(), np.insert(np.cumsum(seg), 0, 0), "length of the polygon", rtol=1e-9)

    # weights
    w = 1 + 0.6 * np.sin(2 * np.pi * np.arange(n) / n + float(rng.uniform(0, 6)))
    rw, fw, _ = fine_length(r, z, w)
    dw = line.distance(weights=w)
    m.close(dw, rw, "weighted distance", rtol=0, atol=0.01 * rw[-1])
    one = line.distance(weights=np.ones(n))
    m.close(one, line.distance(), "unit weights", rtol=1e-9)
    dl = lin.distance(weights=w)
    m.close(dl[-1], np.sum(seg * w), "weighted length of the polygon", rtol=0.03)

    # equally spaced
    k = [None, int(rng.integers(8, 150))][int(rng.integers(2))]
    for wt, cum, what in ((None, fine, "equally spaced"), (w, fw, "equally spaced in the weighting")):
        kw = {} if k is None else {"n": k}
        if wt is not None:
            kw["weights"] = wt
        eq = line.equallySpaced(**kw)
        N = k or n
        if not m.check(len(eq.R) == N, what + ": number of points", got=len(eq.R)):
            continue
        dd, tt = curves.project(r, z, eq.R, eq.Z)
        m.close(dd, 0 * dd, what + ": on the line", rtol=0, atol=1e-7)
        s = np.interp(tt, t, cum)
        want = cum[-1] * np.arange(N) / N
        err = np.abs(s - want)
        err = np.minimum(err, cum[-1] - err)
        m.close(err, 0 * err, what + ": at equal distances", rtol=0, atol=0.02 * cum[-1])
        step = np.mod(np.diff(np.append(s, s[0])), cum[-1])
        if N <= n:
            m.close(step / (cum[-1] / N), np.ones(N), what + ": steps", rtol=0.25)
        m.saw("equally spaced points", N)
    m.close(eq.R[0], R[0], "starts at the same point", rtol=1e-6)


def closest(rng, m):
    from zoidberg import rzline

    n = int(rng.integers(20, 90))
    c = curves.random_curve(rng, 1.0, n, 2.0)
    c["uneven"] *= 0.3
    R, Z = curves.anticlockwise(*curves.points(c))
    m.note("curve", c)
    line = rzline.RZline(R, Z)
    h = 2 * np.pi / n  # about the distance between the points
    k = np.arange(n * 200)
    f = (k % 200) / 200.0
    i = k // 200
    P = np.stack([(1 - f) * v[i] + f * v[(i + 1) % n] for v in (R, Z)], -1)
    for q in range(12):
        rho = float(rng.choice([0.8, 0.9, 1.0, 1.1, 1.5, 4.0]))
        a = float(rng.uniform(0, 2 * np.pi))
        X, Y = curves.shape(c, a)
        X = c["R0"] + rho * (X - c["R0"])
        Y = c["Z0"] + rho * (Y - c["Z0"])
        t = line.closestPoint(X, Y)
        m.check(np.ndim(t) == 0 and 0 <= t <= 2 * np.pi, "closest parameter in one turn", got=t)
        x, y = line.position(t)
        d = np.hypot(x - X, y - Y)
        best = np.sqrt(np.min(np.sum((P - [X, Y]) ** 2, -1)))
        m.close(d, best, "closest point is closest", rtol=0, atol=0.02 * h + 0.3 * h * h)
        if rho in (0.9, 1.0, 1.1):
            # unique closest point: nearly the same place
            b = P[np.argmin(np.sum((P - [X, Y]) ** 2, -1))]
            m.close(np.hypot(x - b[0], y - b[1]), 0.0, "closest point is in the right place", rtol=0, atol=0.25 * h)
        m.saw("closest points")
    # exact at the points of the line
    for j in rng.integers(0, n, 5):
        t = line.closestPoint(R[j], Z[j])
        e = (t - 2 * np.pi * j / n + np.pi) % (2 * np.pi) - np.pi
        m.close(e, 0.0, "closest to a point of the line", rtol=0, atol=1e-3 * h)


def cyclic(m, line, R, Z, what, ordered):
    """line visits each of the points exactly once (in their cyclic order)"""
    a = np.stack([line.R, line.Z], -1)
    b = np.stack([R, Z], -1)
    if not m.check(a.shape == b.shape, what + ": number of points", got=a.shape):
        return
    m.equal(a[np.lexsort(a.T)], b[np.lexsort(b.T)], what + ": every point once")
    m.check(np.sum(a[:, 0] * np.roll(a[:, 1], -1) - np.roll(a[:, 0], -1) * a[:, 1]) > 0, what + ": anticlockwise")
    if ordered:
        j = int(np.argmin(np.sum((a - b[0]) ** 2, -1)))
        m.equal(np.roll(a, -j, 0), b, what + ": order")
    m.saw("lines from unordered points")


def order(rng, m):
    from zoidberg import rzline

    n = int(rng.integers(12, 45))
    c = curves.random_curve(rng, 1.0, n, 2.0, rough=0.7, reverse=False)
    c["uneven"] = 0.0
    convex = bool(rng.random() < 0.4)
    if convex:
        c["h"] = [[0, 0], [0, 0]]
    R, Z = curves.anticlockwise(*curves.points(c))
    p = rng.permutation(n)
    m.note("curve", c)
    m.note("permutation", p.tolist())
    A, B = R[p], Z[p]
    cyclic(m, rzline.line_from_points(list(A) if rng.random() < 0.3 else A, B), R, Z, "line_from_points", True)
    cyclic(m, rzline.line_from_points(A, B, spline_order=1), R, Z, "line_from_points order 1", True)
    cyclic(m, rzline.line_from_points_fast(A, B), R, Z, "line_from_points_fast", True)
    # starting from a well spread triangle of either orientation the polygon
    # grows in the right order
    c2 = dict(c, h=[[0, 0], [0, 0]], kappa=1.0 + 0.3 * (c["kappa"] - 1))
    Rc, Zc = curves.anticlockwise(*curves.points(c2))
    q = [0, n // 3, 2 * n // 3]
    rest = [int(i) for i in rng.permutation(n) if i not in q]
    q = np.array(list(rng.permutation(q)) + rest)
    cyclic(m, rzline.line_from_points_poly(Rc[q], Zc[q]), Rc, Zc, "line_from_points_poly from a spread triangle", True)
    if n < 25:
        cyclic(m, rzline.line_from_points_two_opt(A, B), R, Z, "line_from_points_two_opt", True)
    if convex:
        cyclic(m, rzline.line_from_points_convex_hull(A, B), R, Z, "line_from_points_convex_hull", True)
    cyclic(m, rzline.line_from_points(R[::-1], Z[::-1], is_sorted=True), R, Z, "line_from_points sorted", True)
    m.equal(A, R[p], "points untouched")


def spectral(rng, m):
    from zoidberg import rzline
    from zoidberg.spectralline import SpectralLine

    n = int(rng.integers(21, 60))
    num = int(rng.integers(2, 6))
    t = 2 * np.pi * np.arange(n) / n
    h = rng.uniform(-0.1, 0.1, (4, num)) / np.arange(1, num + 1) ** 2
    h[0, 0], h[1, 0], h[2, 0], h[3, 0] = 1.0, float(rng.uniform(-0.2, 0.2)), float(rng.uniform(-0.2, 0.2)), 1.2
    if rng.random() < 0.5:
        # a single mode beyond the requested ones, which cannot be represented
        extra = 0.01
    else:
        extra = 0.0

    def F(t):
        k = np.arange(1, num + 1)[:, None]
        R = 3 + h[0] @ np.cos(k * t) + h[1] @ np.sin(k * t)
        Z = 0.5 + h[2] @ np.cos(k * t) + h[3] @ np.sin(k * t)
        return R, Z

    R, Z = F(t)
    Re = R + extra * np.cos((num + 2) * t)
    line = rzline.RZline(Re, Z)
    m.note("modes", num)
    s = SpectralLine(line, num)
    # truncated to the requested modes; the parameter starts at -pi
    u = rng.uniform(-10, 10, 50)
    want = F(u)
    m.close(s.Rvalue(u - np.pi), want[0], "spectral line R", rtol=0, atol=1e-5)
    m.close(s.Zvalue(u - np.pi), want[1], "spectral line Z", rtol=0, atol=1e-5)
    m.close(s.cost, 0.25 * n * extra**2, "misfit", rtol=1e-3, atol=1e-9)
    k = [None, int(rng.integers(10, 80))][int(rng.integers(2))]
    e = s.equallySpaced() if k is None else s.equallySpaced(k)
    N = k or n
    want = F(2 * np.pi * np.arange(N) / N + np.pi)
    m.close(e.R, want[0], "equally spaced in the parameter", rtol=0, atol=1e-5)
    m.close(e.Z, want[1], "equally spaced in the parameter", rtol=0, atol=1e-5)
    m.saw("spectral lines")


def shapes(rng, m):
    from zoidberg import rzline

    u = lambda lo, hi: float(rng.uniform(lo, hi))  # noqa
    n = int(rng.integers(8, 60))
    t = 2 * np.pi * np.arange(n) / n
    R0, a = u(1, 4), u(0.1, 0.9)
    line = rzline.circle(R0=R0, r=a, n=n)
    m.close(line.R, R0 + a * np.cos(t), "circle R")
    m.close(line.Z, a * np.sin(t), "circle Z")
    el, tr, ind = u(0, 0.8), u(-0.3, 0.4), u(0, 0.2) * a
    line = rzline.shaped_line(R0=R0, a=a, elong=el, triang=tr, indent=ind, n=n)
    m.close(line.R, R0 - ind + (a + ind * np.cos(t)) * np.cos(t + tr * np.sin(t)), "shaped line R")
    m.close(line.Z, (1 + el) * a * np.sin(t), "shaped line Z")
    m.check(len(rzline.circle().R) == 20, "default number of points")
    m.saw("shapes", 2)


def smoothed(rng, m):
    """many scattered points: the smoothed line follows the curve, not the scatter"""
    from zoidberg import rzline

    n = int(rng.integers(300, 1200))
    every = [True, 100, 60, 30][int(rng.integers(4))]
    num = n // (100 if every is True else every) + 1
    if num < 7:
        every, num = 30, n // 30 + 1
    t = np.linspace(0, 2 * np.pi, n, endpoint=False)
    a, b, c, e = rng.uniform(-0.1, 0.1, 4)
    k = float(rng.uniform(0.7, 1.5))
    f = lambda t: (3 + np.cos(t) + a * np.cos(2 * t) + b * np.sin(t), k * np.sin(t) + c * np.cos(t) + e * np.sin(2 * t))  # noqa
    sig = float(rng.choice([0.0, 0.003, 0.02]))
    R, Z = (x + sig * rng.normal(size=n) for x in f(t))
    m.note("parameters", dict(n=n, smooth=every, scatter=sig))
    kw = dict(smooth=every)
    line = rzline.line_from_points(R, Z, is_sorted=True, **kw) if rng.random() < 0.5 else rzline.RZline(R, Z, **kw)
    u = np.linspace(0, 2 * np.pi, 777) + float(rng.uniform(-10, 10))
    err = np.concatenate([line.Rvalue(u) - f(u)[0], line.Zvalue(u) - f(u)[1]])
    # least squares with num knots: truncation error of the spline and the scatter that is left
    trunc = 3 * (2 * np.pi / num) ** 4 / 384 * 4
    m.check(np.sqrt(np.mean(err**2)) < 1.5 * sig * np.sqrt((num + 6) / n) + trunc, "the smoothed line follows the curve", got=np.sqrt(np.mean(err**2)), num=num)
    for d in (0, 1, 2):
        m.close(line.Rvalue(u, deriv=d), line.Rvalue(u + 2 * np.pi, deriv=d), "smoothed line periodic", rtol=0, atol=1e-7)
        m.close(line.Zvalue(u, deriv=d), line.Zvalue(u - 2 * np.pi, deriv=d), "smoothed line periodic", rtol=0, atol=1e-7)
        h = 1e-9
        m.close(line.Rvalue(h, deriv=d), line.Rvalue(-h, deriv=d), "smoothed line smooth at the seam", rtol=0, atol=1e-5)
        m.close(line.Zvalue(h, deriv=d), line.Zvalue(-h, deriv=d), "smoothed line smooth at the seam", rtol=0, atol=1e-5)
    m.equal(np.array([line.R, line.Z]), np.array(curves.anticlockwise(R, Z)), "the points are kept")
    m.saw("smoothed lines")


def run(case, m):
    m.interesting()
    globals()[case["what"]](rng_of(case), m)
