"""C23: smoothing closed curves"""
import numpy as np

from lib import curves
from lib.harness import layout, rng_of

PROPERTY = "C23"
LEVEL = "exploration"
REPEAT = 5
TECHNIQUE = "runtime monitoring: every smoothed curve compared point by point with the input outside the windows of independently found corners, and with the curve smoothed from another starting point"
RULE = (
    "Random closed polygons (3 to 9 corners, convex or not, evenly sampled with 120 to 500 points, either orientation, any first "
    "point, corners on, next to and across the seam), smooth curves with one corner and smooth curves without any; cut-off, window and "
    "search distance varied. Corners are found by an independent implementation of the documented rule. Non-trivial: a corner is smoothed."
)
ASSUMPTIONS = [
    "curves are sampled evenly, so that the window need not be widened",
    "windows in which the curve turns by more than 2.2 rad (several corners together) are not required to come out smooth",
    "curves with an angle within 1e-6 of the cut-off are not judged",
]


def cases(tier, rng):
    out = []
    n = 160 if tier == "quick" else 1500
    for i in range(n):
        out.append(dict(kind=["polygon", "polygon", "polygon", "drop", "smooth"][i % 5]))
    for i in range(12 if tier == "quick" else 80):
        out.append(dict(kind="seam"))
    for i in range(6 if tier == "quick" else 40):
        out.append(dict(kind="toomany"))
    for i in range(24 if tier == "quick" else 200):
        out.append(dict(kind="uneven"))
    for i in range(4 if tier == "quick" else 20):
        out.append(dict(kind="plot"))
    return out


def sample(P, n):
    """n points evenly spaced along the closed polygon P, the first vertex being a point"""
    Q = np.vstack([P, P[:1]])
    s = np.insert(np.cumsum(np.hypot(*np.diff(Q, axis=0).T)), 0, 0)
    u = s[-1] * np.arange(n) / n
    return np.interp(u, s, Q[:, 0]), np.interp(u, s, Q[:, 1])


def corners(r, z, cutoff, bmax):
    """cos of the angle at p+b between p and p-b, for every p and b"""
    P = np.stack([r, z], -1)
    c = []
    for b in range(1, bmax + 1):
        p1, p2, p3 = np.roll(P, -b, 0), P, np.roll(P, b, 0)
        a, d = p1 - p2, p1 - p3
        with np.errstate(all="ignore"):
            c.append(np.sum(a * d, -1) / np.sqrt(np.sum(a * a, -1) * np.sum(d * d, -1)))
    return np.array(c)


def polygon(rng):
    k = int(rng.integers(3, 10))
    while True:
        t = np.sort(rng.uniform(0, 2 * np.pi, k))
        gap = np.diff(np.append(t, t[0] + 2 * np.pi))
        if np.max(gap) < 2.5 and np.min(gap) > 0.4:
            break
    rad = np.ones(k) if rng.random() < 0.6 else rng.uniform(0.6, 1.0, k)
    R0, Z0 = rng.uniform(1, 4), rng.uniform(-1, 1)
    a = float(rng.choice([0.3, 1.0]))
    return np.stack([R0 + a * rad * np.cos(t), Z0 + a * rad * np.sin(t)], -1)


def runs(mask):
    """circular runs of True as arrays of indices"""
    n = len(mask)
    if mask.all():
        return [np.arange(n)]
    s = int(np.argmin(mask))
    idx = (np.arange(n) + s) % n
    out, cur = [], []
    for i in idx:
        if mask[i]:
            cur.append(i)
        elif cur:
            out.append(np.array(cur))
            cur = []
    if cur:
        out.append(np.array(cur))
    return out


def turning(r, z):
    d = (np.roll(r, -1) - r) + 1j * (np.roll(z, -1) - z)
    return np.abs(np.angle(d / np.roll(d, 1)))


def make(case, rng, m):
    n = int(rng.integers(120, 500))
    bounds = int(rng.integers(4, 13))
    k = case["kind"]
    if k == "smooth":
        c = curves.random_curve(rng, 1.0, n, 2.0, rough=0.5)
        r, z = curves.points(c)
    elif k == "drop":
        # a circle with one corner
        t = np.linspace(0.5, 2 * np.pi - 0.5, 400)
        P = np.vstack([[2 + 1 / np.cos(0.5), 0]] + [np.stack([2 + np.cos(t), np.sin(t)], -1)])
        a = rng.uniform(0, 2 * np.pi)
        P = (P - [2, 0]) @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]]) + [2, 0]
        r, z = sample(P, n)
    else:
        r, z = sample(polygon(rng), n)
    if rng.random() < 0.5:
        r, z = r[::-1], z[::-1]
    if k == "seam":
        s = 0
    else:
        s = int(rng.integers(n))
    return np.roll(r, s), np.roll(z, s), bounds


def judge(m, r, z, cutoff, bounds, find, rng):
    from zoidberg.smooth import smooth

    n = len(r)
    c = corners(r, z, cutoff, find or bounds)
    if np.any(np.abs(c - cutoff) < 1e-6):
        m.saw("too close to the cut-off")
        return None
    bad = np.any(c < cutoff, axis=0)
    W = np.zeros(n, dtype=bool)
    for p in np.nonzero(bad)[0]:
        W[np.arange(p - bounds, p + bounds + 1) % n] = True
    rr = runs(W) if W.any() else []
    kw = {} if find is None else {"bounds_find": find}
    args = layout(rng, r), layout(rng, z)
    if any(len(x) >= n / 2 for x in rr):
        m.raises(ValueError, lambda: smooth(*args, cutoff=cutoff, bounds=bounds, **kw), "too many points to smooth")
        return None
    m.note("parameters", dict(cutoff=cutoff, bounds=bounds, bounds_find=find, corners=np.nonzero(bad)[0].tolist(), n=n))
    got = smooth(*args, cutoff=cutoff, bounds=bounds, **kw)
    if not m.check(isinstance(got, tuple) and len(got) == 2, "returns two arrays"):
        return None
    R, Z = (np.asarray(g) for g in got)
    if not m.check(R.shape == (n,) and Z.shape == (n,), "number of points", got=[R.shape, Z.shape]):
        return None
    m.equal(R[~W], r[~W], "points away from corners (R)")
    m.equal(Z[~W], z[~W], "points away from corners (Z)")
    m.saw("points left alone", int(np.sum(~W)))
    m.saw("points in windows", int(np.sum(W)))
    h = np.mean(np.hypot(np.diff(r), np.diff(z)))
    t0, t1 = turning(r, z), turning(R, Z)
    for x in rr:
        a, b = x[0], x[-1]
        for e in (a, b):
            m.close(np.hypot(R[e] - r[e], Z[e] - z[e]) / h, 0.0, "the arc starts and ends on the curve", rtol=0, atol=0.05)
        before = np.max(t0[x])
        after = np.max(t1[x])
        for e in ((a - 1) % n, (b + 1) % n):
            # a bend too weak to be a corner may lie just outside
            after = max(after, t1[e] - t0[e])
        total = np.sum(t0[x])
        if total < 2.2:
            # several corners in one window may turn by more than one cubic can
            m.check(after < 0.5 * before + 0.02, "the corner is gone", before=before, after=after)
        # the arc advances along the curve and stays close to it
        d = np.hypot(R[x] - r[x], Z[x] - z[x])
        m.check(np.max(d) < 0.75 * len(x) * h, "the arc stays near the corner", got=np.max(d) / h)
        step = np.hypot(np.diff(R[x]), np.diff(Z[x]))
        m.check(np.all(step > 0.05 * h) & np.all(step < 2.5 * h), "the points of the arc are spread along it", got=[np.min(step) / h, np.max(step) / h])
        m.check(np.any(np.hypot(R[x] - r[x], Z[x] - z[x]) > 0.02 * h), "the corner was smoothed")
        m.saw("corners smoothed")
    if not rr:
        m.saw("curves without corners")
    m.interesting(len(rr) > 0)
    return R, Z


def run(case, m):
    rng = rng_of(case)
    k = case["kind"]
    cutoff = float(rng.choice([0.75, 0.85, 0.9, 0.95]))
    if k == "toomany":
        r, z = sample(polygon(rng), int(rng.integers(40, 60)))
        judge(m, r, z, 0.95, int(rng.integers(8, 13)), None, rng)
        return
    if k == "uneven":
        return uneven(m, rng, cutoff)
    r, z, bounds = make(case, rng, m)
    if k == "plot":
        return plot(m, r, z, cutoff, bounds)
    find = [None, None, 2, 5, bounds + 3][int(rng.integers(5))]
    if k == "smooth":
        cutoff = 0.75
    if k != "seam":
        out = judge(m, r, z, cutoff, bounds, find, rng)
        if out is not None:
            same(m, r, z, cutoff, bounds, find, out, [int(rng.integers(len(r)))])
        return
    # a corner at every distance from the seam
    n = len(r)
    out = None
    for s in list(range(-bounds - 2, bounds + 3)):
        o = judge(m, np.roll(r, s), np.roll(z, s), cutoff, bounds, find, rng)
        if o is None:
            continue
        o = np.roll(o[0], -s), np.roll(o[1], -s)
        if out is None:
            out = o
        m.close(np.array(o), np.array(out), "independent of the first point", rtol=0, atol=1e-7)
        m.saw("starting points")


def same(m, r, z, cutoff, bounds, find, out, shifts):
    from zoidberg.smooth import smooth

    kw = {} if find is None else {"bounds_find": find}
    for s in shifts:
        o = smooth(np.roll(r, s), np.roll(z, s), cutoff=cutoff, bounds=bounds, **kw)
        if m.check(o is not None and len(o) == 2, "returns two arrays"):
            m.close(np.roll(np.array(o), -s, axis=1), np.array(out), "independent of the first point", rtol=0, atol=1e-7)
            m.saw("starting points")


def uneven(m, rng, cutoff):
    """Sides sampled with different distances: smoothed after widening the window, or reported"""
    from zoidberg.smooth import smooth

    P = polygon(rng)
    k = len(P)
    n = rng.integers(20, 60, k)
    n[int(rng.integers(k))] *= int(rng.integers(3, 9))
    bounds = int(rng.integers(3, 8))
    pts = np.vstack([P[i] + (P[(i + 1) % k] - P[i]) * (np.arange(n[i]) / n[i])[:, None] for i in range(k)])
    s = int(rng.integers(len(pts)))
    r, z = np.roll(pts, s, axis=0).T
    r, z = r.copy(), z.copy()
    m.note("parameters", dict(cutoff=cutoff, bounds=bounds, n=n.tolist()))
    try:
        got = smooth(layout(rng, r), layout(rng, z), cutoff=cutoff, bounds=bounds)
    except (RuntimeError, ValueError):
        m.saw("failures reported")
        m.interesting()
        return
    if not m.check(isinstance(got, tuple) and len(got) == 2, "returns two arrays", got=type(got).__name__):
        return
    R, Z = (np.asarray(g) for g in got)
    if not m.check(R.shape == r.shape and Z.shape == z.shape, "number of points", got=[R.shape, Z.shape]):
        return
    m.check(np.all(np.isfinite(R)) and np.all(np.isfinite(Z)), "finite")
    # what no window can reach, however often it is widened
    c = np.any(corners(r, z, cutoff, bounds) < cutoff, axis=0)
    d = np.min(np.abs((np.arange(len(r))[:, None] - np.nonzero(c)[0][None, :] + len(r) // 2) % len(r) - len(r) // 2), axis=1) if c.any() else np.full(len(r), 10**9)
    far = d > 12 * bounds + 2
    m.equal(R[far], r[far], "points far from corners (R)")
    m.equal(Z[far], z[far], "points far from corners (Z)")
    m.saw("points left alone", int(np.sum(far)))
    m.saw("unevenly sampled curves smoothed")
    m.interesting(c.any())


def plot(m, r, z, cutoff, bounds):
    """Plotting on the way does not change what is returned"""
    import matplotlib.pyplot as plt

    from zoidberg.smooth import smooth

    out = []
    for kw in ({}, {"plot": False}, {"plot": True}):
        try:
            out.append(smooth(r.copy(), z.copy(), cutoff=cutoff, bounds=bounds, **kw))
        except (ValueError, RuntimeError) as e:
            out.append(type(e))
    plt.close("all")
    if out[0] in (ValueError, RuntimeError):
        m.check(out[1] is out[0] and out[2] in (out[0], None), "the same failure")
        return
    for o in out[1:]:
        if m.check(isinstance(o, tuple) and len(o) == 2, "returns two arrays", got=type(o).__name__):
            m.equal(np.asarray(o[0]), np.asarray(out[0][0]), "the same curve with a plot (R)")
            m.equal(np.asarray(o[1]), np.asarray(out[0][1]), "the same curve with a plot (Z)")
    m.saw("plotted", 1)
    m.interesting()
