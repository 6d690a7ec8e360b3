"""C29: lines of EMC3 grids"""
import numpy as np

from lib import emc3
from lib.harness import rng_of

emc3.install()

PROPERTY = "C29"
LEVEL = "exploration"
REPEAT = 2
TECHNIQUE = (
    "runtime monitoring of the EMC3 tracer and field on synthesised field-aligned grids behind stand-ins for xemc3 and eudist; every position is compared with "
    "a reference which follows the cell and the relative position in it, and runs are compared with each other (pieces, groups, repetitions)"
)
RULE = (
    "Random grids (one to three zones of different size, 12 to 40 angles, 2 to 8 unevenly spaced planes, one to five periods, twist and shear of either sign, moving axis, rotating ellipse, either sense of the angle); "
    "lines started at any angle within and beyond the grid and followed up, down and in arbitrary order over up to four periods, at planes and between them, as scalars and arrays, in groups and one by one, with the same tracer. "
    "Non-trivial: at least one line compared which crossed the end of the grid."
)
ASSUMPTIONS = [
    "xemc3 and eudist are not installed: stand-ins with the calls zoidberg makes (cell search, selection and linear interpolation of planes, corners, evaluation)",
    "every zone covers the whole period; lines which leave the grid are compared with the smooth twist at a larger tolerance",
]


def cases(tier, rng):
    n = 24 if tier == "quick" else 200
    out = []
    for i in range(n):
        out += [dict(kind="lines"), dict(kind="edge"), dict(kind="bmag")]
        if i % 3 == 0:
            out.append(dict(kind="maps"))
    return out


def setup(rng):
    from zoidberg.field import EMC3
    from zoidberg.fieldtracer import EMC3FieldTracer

    g = emc3.Grid(rng)
    ds = g.dataset(rng)
    f = EMC3(ds)
    return g, ds, f, EMC3FieldTracer(f)


def angles(g, rng, p0):
    n = int(rng.integers(2, 7))
    k = rng.integers(5)
    if k == 0:
        y = p0 + np.sort(rng.uniform(0, 4 * g.P, n))
    elif k == 1:
        y = p0 - np.sort(rng.uniform(0, 4 * g.P, n))
    elif k == 2:
        y = p0 + rng.uniform(-3, 3, n) * g.P
    elif k == 3:
        y = rng.choice(g.phi, n) + g.P * rng.integers(-2, 3, n)
    else:
        y = p0 + np.arange(1, n + 1) * g.P * float(rng.choice([1, -1, 0.5, -0.25]))
    return np.concatenate([[p0], y])


def starts(g, rng, p0, shape, lo, hi):
    """Positions within the surfaces"""
    s = rng.uniform(lo, hi, shape)
    t = rng.uniform(0, 2 * np.pi, shape)
    q, _ = g.turns(p0)
    P = g.pos(s, t, q)
    return P[..., 0], P[..., 1]


def lines(case, m, rng):
    g, ds, f, tr = setup(rng)
    m.note("zones", [len(z[0]) for z in g.zones])
    for step in range(int(rng.integers(2, 5))):
        p0 = float(rng.choice([g.pmin, g.phi[int(rng.integers(len(g.phi)))], g.pmin + rng.uniform(0, 1) * g.P, g.pmin + rng.uniform(-3, 3) * g.P]))
        y = angles(g, rng, p0)
        shape = [(), (1,), (5,), (3, 2), (2, 3)][int(rng.integers(5))]
        pad = 3 * g.maxsag * g.smax + 0.01
        x, z = starts(g, rng, p0, shape, g.smin + pad, g.smax - pad)
        x, z = np.array(x), np.array(z)
        if rng.random() < 0.2 and shape:
            # a corner of a cell
            q, _ = g.turns(p0)
            c = g.plane(q)[0]
            x.flat[0], z.flat[0] = c[1, int(rng.integers(g.nt))]
        x0, z0 = x.copy(), z.copy()
        out = np.asarray(tr.follow_field_lines(x, z, y))
        m.equal(out.shape, (len(y), *shape, 2), "shape of the result")
        m.check(np.array_equal(x, x0) and np.array_equal(z, z0), "starting points unchanged")
        m.close(out[0, ..., 0], x0, "first position")
        m.close(out[0, ..., 1], z0, "first position")
        flat = out.reshape(len(y), -1, 2)
        for i in range(flat.shape[1]):
            rz = np.array([x0.flat[i], z0.flat[i]])
            for j in range(1, len(y)):
                want = g.follow(rz, y[0], y[j])
                if want is None:
                    m.saw("lines which left the grid")
                    continue
                m.close(flat[j, i], want, "position along the line", rtol=0, atol=1e-5)
                n = g.turns(y[j])[1] - g.turns(y[0])[1]
                m.saw("positions")
                if n:
                    m.saw("crossings of the end", abs(n))
                    m.interesting()
        # alone and again
        if shape and flat.shape[1] > 1:
            i = int(rng.integers(flat.shape[1]))
            one = np.asarray(tr.follow_field_lines(x.reshape(-1)[i : i + 1], z.reshape(-1)[i : i + 1], y))
            if all(g.follow(np.array([x0.flat[i], z0.flat[i]]), y[0], v) is not None for v in y):
                m.close(one[:, 0], flat[:, i], "a line alone", rtol=0, atol=1e-5)
        # in pieces, and back
        if len(shape) == 1:
            a = flat[1, 0]
            two = np.asarray(tr.follow_field_lines(np.array([a[0]]), np.array([a[1]]), np.array([y[1], y[2], y[0]])))
            w = g.follow(a, y[1], y[0]), g.follow(a, y[1], y[2]), g.follow(np.array([x0.flat[0], z0.flat[0]]), y[0], y[2])
            if all(v is not None for v in w):
                m.close(two[2, 0], flat[0, 0], "there and back", rtol=0, atol=3e-5)
                m.close(two[1, 0], flat[2, 0], "in pieces", rtol=0, atol=3e-5)
                m.saw("pieces")


def edge(case, m, rng):
    """Lines between the outermost polygon and surface"""
    g, ds, f, tr = setup(rng)
    m.note("zones", [len(z[0]) for z in g.zones])
    for step in range(3):
        k = int(rng.integers(len(g.phi)))
        p0 = float(g.phi[k])
        out = bool(rng.random() < 0.5)
        zid = int(np.argmax([z[0][-1] for z in g.zones]) if out else np.argmin([z[0][0] for z in g.zones]))
        c = g.corners[zid][k][-1 if out else 0]
        n = 4
        j = rng.integers(0, g.nt, n)
        # with several zones, only the zone of a corner nearby is known
        w = rng.uniform(0.0, 0.4, (n, 1)) if len(g.zones) == 1 else rng.uniform(0, 5e-4 / (0.53 * g.smax), (n, 1))
        P = (1 - w) * c[j] + w * c[j + 1]
        d = np.array([g.R0, g.Z0]) - P
        d /= np.hypot(*d.T)[:, None]
        P = P - d * float(10 ** rng.uniform(-6, -3.4)) * (1 if out else -1)
        y = np.concatenate([[p0], rng.uniform(g.pmin, g.pmin + g.P, 3)])
        # at the planes: between them the reference is not linear in the angle
        y[1:] = g.phi[rng.integers(0, len(g.phi), 3)]
        res = np.asarray(tr.follow_field_lines(P[:, 0], P[:, 1], y))
        s, t = g.labels(P[:, 0], P[:, 1], p0)
        for i in range(1, len(y)):
            want = g.pos(s, t, y[i])
            m.close(res[i], want, "a line just outside the grid", rtol=0, atol=0.02 + 2 * g.maxsag * g.smax)
            m.saw("positions outside", n)
            m.interesting()


def bmag(case, m, rng):
    g, ds, f, tr = setup(rng)
    m.close(ds["Bmean"].values, np.mean(g.b, axis=(4, 5, 6)), "mean field of the cells")
    nx, nz = int(rng.integers(6, 12)), int(rng.integers(1, 7))
    # lines of points, straight and bent; the field is a cubic along them
    a = rng.uniform(0, 2 * np.pi, nz)
    bend = np.where(rng.random(nz) < 0.4, 0.0, rng.uniform(-1, 1, nz))
    v = np.sort(rng.uniform(0, 1, (nx, nz)), axis=0) + np.linspace(0, 1, nx)[:, None]
    c = rng.uniform(-1, 1, (4, nz))
    x = 5 + v * np.cos(a) - bend * v**2 * np.sin(a)
    z = v * np.sin(a) + bend * v**2 * np.cos(a)
    u = np.concatenate([np.zeros((1, nz)), np.cumsum(np.hypot(np.diff(x, axis=0), np.diff(z, axis=0)), axis=0)])
    holes = rng.random((nx, nz)) < 0.3
    for k in range(nz):
        if nx - holes[:, k].sum() < 4:
            holes[:, k] = False
    if rng.random() < 0.3:
        holes[:] = False
    s = u - u[:1]
    B = 2 + c[0] + c[1] * s + c[2] * s**2 + c[3] * s**3
    seen = []

    def evaluate(r, phi, zz, v):
        seen.append((r, phi, zz))
        return np.where(holes, np.nan, B)

    emc3.Accessor.evaluate = staticmethod(evaluate)
    phi = float(rng.uniform(0, 6))
    for fn in (f.Bmag, f.Byfunc):
        got = fn(x, z, phi)
        m.close(np.asarray(got), B, "field strength", rtol=1e-7, atol=1e-7)
        r, ph, zz = seen[-1]
        m.check(np.allclose(r, x) and np.allclose(zz, z) and np.allclose(ph, phi), "position asked for")
        m.saw("field strengths", nx * nz)
    if holes.any():
        m.saw("gaps filled", int(holes.sum()))
        m.interesting()


def maps(case, m, rng):
    """make_maps over the end of the grid"""
    import zoidberg as zb
    from zoidberg import poloidal_grid as pg

    g, ds, f, tr = setup(rng)
    emc3.Accessor.evaluate = staticmethod(lambda r, phi, z, v: np.full(np.shape(r), 2.0))
    ny = int(rng.integers(2, 6))
    pad = 3 * g.maxsag * g.smax + 0.01
    nx, nz = 6, 10
    planes = []
    ys = g.pmin + g.P * np.arange(ny) / ny
    s = np.linspace(g.smin + pad, g.smax - pad, nx)[:, None]
    t = 2 * np.pi * np.arange(nz)[None, :] / nz
    pts = []
    for y in ys:
        P = g.pos(s, t - (g.iota[0] + g.iota[1] * s) * (y - g.pmin), y)
        pts.append(P)
        planes.append(pg.StructuredPoloidalGrid(P[..., 0], P[..., 1]))
    grid = zb.grid.Grid(planes, ys, g.P, yperiodic=True)
    mp = zb.make_maps(grid, f, field_tracer=tr, quiet=True)
    for k, (dirn, sgn) in enumerate((("forward", 1), ("backward", -1))):
        for j in range(ny):
            for _ in range(6):
                a, b = int(rng.integers(nx)), int(rng.integers(nz))
                w = g.follow(pts[j][a, b], ys[j], ys[j] + sgn * g.P / ny)
                if w is None:
                    continue
                got = [mp[f"{dirn}_{c}"][a, j, b] for c in "RZ"]
                m.close(np.array(got), w, f"{dirn} position in the maps", rtol=0, atol=1e-5)
                m.saw("map points")
                if (sgn > 0 and j == ny - 1) or (sgn < 0 and j == 0):
                    m.interesting()


def run(case, m):
    rng = rng_of(case)
    dict(lines=lines, edge=edge, bmag=bmag, maps=maps)[case["kind"]](case, m, rng)
