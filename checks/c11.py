"""C11: poloidal positions and indices"""
import numpy as np

from lib import grids
from lib.harness import rng_of

PROPERTY = "C11"
LEVEL = "exploration"
REPEAT = 20
TECHNIQUE = "runtime monitoring: round trips between index and position, compared with analytic grids"
RULE = (
    "Rectangular grids (any size, offset, guard width) and elongated, shifted and rotated annuli and shaped (triangular) grids, with random query points: inside, on grid points, on the "
    "periodic seam, beyond the seam, in the edge zones, far outside; as scalars, 1D, 2D and 3D arrays. Positions, derivatives and indices are compared "
    "with the formula of the grid and with each other. Non-trivial: always."
)
ASSUMPTIONS = ["structured grids resolve their curves (at least 16 points round), so splines follow the formula to 1e-3 of a cell"]


def cases(tier, rng):
    out = []
    for i in range(280 if tier == "quick" else 3000):
        out.append(dict(kind=["rect", "ann", "ann", "shaped"][i % 4], shape=["scalar", "1d", "2d", "3d", "one"][i % 5]))
    return out


def shape_of(s, rng):
    n = int(rng.integers(2, 30))
    return {"scalar": (), "one": (1,), "1d": (n,), "2d": (3, n), "3d": (2, 2, n)}[s]


def shaped(rng):
    """A D-shaped grid and its formula"""
    nx, nz = int(rng.integers(6, 16)), int(rng.integers(32, 64))
    tri, kap, sh = rng.uniform(-0.3, 0.4), rng.uniform(0.8, 1.7), rng.uniform(-0.15, 0.15)

    def pos(x, z):
        s = 0.3 + 0.7 * np.asarray(x) / (nx - 1)
        t = 2 * np.pi * np.asarray(z) / nz
        return 3 + sh * (1 - s**2) + s * np.cos(t + tri * s * np.sin(t)), kap * s * np.sin(t)

    return nx, nz, pos


def run(case, m):
    from zoidberg import poloidal_grid as pg

    rng = rng_of(case)
    shape = shape_of(case["shape"], rng)
    k = case["kind"]
    if k == "shaped":
        nx, nz, pos = shaped(rng)
        x, z = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
        pol = pg.StructuredPoloidalGrid(*pos(x, z))
    else:
        g = grids.random_grid(
            rng,
            kind=k,
            same=True,
            ny=1,
            helper=False,
            nx=int(rng.integers(7, 20)),
            nz=int(rng.integers(2, 12)) if k == "rect" else int(rng.integers(16, 60)),
        )
        p = g["planes"][0]
        m.note("plane", p)
        nx, nz = p["nx"], p["nz"]
        pol = grids.plane_build(p)
        pos = lambda x, z: grids.plane_pos(p, x, z)  # noqa
    m.equal((pol.nx, pol.nz), (nx, nz), "size")
    # grid points
    x, z = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    for c, (a, b, q) in enumerate(zip((pol.R, pol.Z), pol.getCoordinate(x, z), pos(x, z))):
        m.close(b, a, "position of grid points", rtol=1e-10, atol=1e-10)
        m.close(a, q, "grid points", rtol=1e-10, atol=1e-12)
    if k == "rect":
        xi = rng.uniform(-3, nx + 2, shape)
        zi = rng.uniform(-nz, 2 * nz, shape)
    else:
        xi = rng.uniform(0.9, nx - 1.65, shape)
        zi = rng.uniform(-nz, 2 * nz, shape)
        if rng.random() < 0.3:
            xi, zi = np.round(xi), np.round(zi)
    R, Z = pol.getCoordinate(xi, zi)
    Rr, Zr = pos(xi, zi)
    # cubic interpolation in the angle
    tol = 1e-12 if k == "rect" else 2.0 * (2 * np.pi / nz) ** 4 / 24 + 1e-9
    if k == "shaped":
        tol = 0.3 * (2 * np.pi / nz) ** 4 * 20 + 3e-3 * (9 / nx) ** 4
    m.close(R, Rr, f"position at fractional indices {k}", rtol=0, atol=tol)
    m.close(Z, Zr, f"position at fractional indices {k}", rtol=0, atol=tol)
    # derivatives are those of the position
    h = 1e-5
    for dx, dz in ((1, 0), (0, 1)):
        D = pol.getCoordinate(xi, zi, dx=dx, dz=dz)
        P1 = pol.getCoordinate(xi + h * dx, zi + h * dz)
        P0 = pol.getCoordinate(xi - h * dx, zi - h * dz)
        for c in range(2):
            m.close(np.asarray(D[c]), (np.asarray(P1[c]) - P0[c]) / (2 * h), "derivative", rtol=1e-5, atol=3e-7)
        m.saw("derivatives", np.size(xi))
    if k != "shaped":
        want = grids.plane_deriv(p, xi, zi)
        D = pol.getCoordinate(xi, zi, dx=1)
        scale = np.max(np.abs(want)) + 1e-3
        for a, b in zip(tuple(D) + tuple(pol.getCoordinate(xi, zi, dz=1)), want):
            m.close(np.asarray(a) / scale, b / scale, f"derivative by formula {k}", rtol=0, atol=1e-12 if k == "rect" else 1.0 * (2 * np.pi / nz) ** 3)
    # second derivatives
    hh = 1e-3 if k == "rect" else 1e-2
    for dx, dz in ((2, 0), (0, 2), (1, 1)):
        D = pol.getCoordinate(xi, zi, dx=dx, dz=dz)
        a = dict(dx=min(dx, 1), dz=0) if dx else dict(dx=0, dz=1)
        sx, sz = (hh, 0) if dx == 2 else (0, hh)
        P1, P0 = pol.getCoordinate(xi + sx, zi + sz, **a), pol.getCoordinate(xi - sx, zi - sz, **a)
        for c in range(2):
            s = 1e-3 + np.max(np.abs(pol.getCoordinate(x, z, dz=1)[c]))
            m.close(np.asarray(D[c]) / s, (np.asarray(P1[c]) - P0[c]) / (2 * hh) / s, "second derivative", rtol=0, atol=2e-2)
    # and back
    a, b = pol.findIndex(R, Z)
    m.equal(np.shape(a), shape, "shape of the indices")
    m.equal(np.shape(b), shape, "shape of the indices")
    per = 1e9 if k == "rect" else nz
    m.close(np.asarray(a), xi, f"x index round trip {k}", rtol=0, atol=1e-6)
    e = np.mod(np.asarray(b) - zi + 0.5 * per, per) - 0.5 * per
    m.close(e, np.zeros(shape), f"z index round trip {k}", rtol=0, atol=1e-6)
    m.saw("round trips", np.size(xi))
    if k != "rect":
        # the edges: half a cell from the edge surfaces and beyond is outside
        n = max(4, int(np.prod(shape)))
        u = np.concatenate([rng.uniform(0.0, 0.4, n), rng.uniform(nx - 1.4, nx - 1, n), rng.uniform(0.9, nx - 1.65, n)])
        v = rng.uniform(0, nz, 3 * n)
        if k == "ann":
            u[:n:2] = rng.uniform(-1.5, 0.0, len(u[:n:2]))
            u[n : 2 * n : 2] = rng.uniform(nx - 1, 3 * nx, len(u[n : 2 * n : 2]))
        a, b = pol.findIndex(*pos(u, v))
        m.check(a[:n] == -1, "inner edge is marked -1", bad=a[:n][a[:n] != -1])
        m.check(a[n : 2 * n] == nx, "outer edge is marked nx", bad=a[n : 2 * n][a[n : 2 * n] != nx])
        m.check((a[2 * n :] > 0.5) & (a[2 * n :] < nx - 1.5), "inside is not marked")
        m.saw("edge points", 2 * n)
        m.raises(ValueError, lambda: pol.getCoordinate(np.array([1.0, nx - 0.5]), np.array([0.0, 0.0])), "x index beyond the grid")
        m.raises(ValueError, lambda: pol.getCoordinate(np.array([-0.5, 2.0]), np.array([0.0, 0.0])), "x index before the grid")
        if nx > 4:
            m.raises((AssertionError, ValueError), lambda: type(pol)(pol.R[::-1], pol.Z[::-1]), "a grid numbered from the outside inwards")
    m.interesting()
