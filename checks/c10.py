"""C10: planes at any y index"""
import numpy as np

from lib import grids
from lib.harness import rng_of

PROPERTY = "C10"
LEVEL = "exploration"
REPEAT = 24
TECHNIQUE = "runtime monitoring: every lookup compared with a reference model of the sequence of planes"
RULE = (
    "Grids of 1 to 8 planes (one shared poloidal grid or all different, uniform or not in y, any offset, periodic or not), looked up at all integer indices over "
    "several periods in both directions (int, numpy integer and float types) and at random fractional indices. Non-trivial: several planes."
)
ASSUMPTIONS = ["the domain of a non-periodic grid is [0, Ly], as documented"]


def cases(tier, rng):
    return [dict(kind=["periodic", "open"][i % 2], ny=1 + i % 8) for i in range(200 if tier == "quick" else 2000)]


def run(case, m):
    rng = rng_of(case)
    periodic = case["kind"] == "periodic"
    ny = case["ny"]
    g = grids.random_grid(
        rng, ny=ny, periodic=periodic, kind="rect" if rng.random() < 0.8 else "ann", Ly=float(rng.choice([0.3, 1.0, 2 * np.pi, 50.0]))
    )
    if periodic and not g["helper"] and rng.random() < 0.5:
        s = float(rng.uniform(-3, 3)) * g["Ly"]
        g["y"] = [y + s for y in g["y"]]
    m.note("grid", g)
    grid = grids.grid_build(g)
    m.equal(grid.numberOfPoloidalGrids(), ny, "number of planes")
    p0 = g["planes"][0]
    m.equal(grid.shape, (p0["nx"], ny, p0["nz"]), "shape")
    L = g["Ly"]
    last = -np.inf
    idx = list(range(-4 * ny - 3, 4 * ny + 4))
    for j in idx:
        p, y = grids.plane_at(g, j)
        for t in (int, np.int64, np.int32, float):
            pol, yy = grid.getPoloidalGrid(t(j))
            m.close(yy, y, "y at an integer index", rtol=1e-12, atol=1e-12 * L, index=j)
            if p is None:
                m.check(pol is None, "no grid beyond the end", index=j)
            else:
                m.check(pol is not None, "grid missing", index=j, stop=True)
                R, Z = grids.plane_pos(p, *np.meshgrid(np.arange(p["nx"]), np.arange(p["nz"]), indexing="ij"))
                if t is int:
                    m.close(pol.R, R, "R of the plane", rtol=1e-12, index=j)
                    m.close(pol.Z, Z, "Z of the plane", rtol=1e-12, atol=1e-13, index=j)
                else:
                    m.check(pol is grid.getPoloidalGrid(j)[0], "same plane for every integer type", index=j)
        m.check(yy >= last - 1e-12 * L, "y increases with the index", index=j)
        if periodic:
            m.check(yy > last, "y increases with the index", index=j)
        last = yy
    m.saw("integer lookups", 4 * len(idx))
    for rep in range(60):
        j = int(rng.integers(-3 * ny - 2, 3 * ny + 2))
        fr = float(rng.choice([0.5, 0.25, float(rng.uniform(0.01, 0.99)), 0.999, 0.001]))
        a, b = grids.plane_at(g, j)[1], grids.plane_at(g, j + 1)[1]
        pol, y = grid.getPoloidalGrid(j + fr)
        m.close(y, a + fr * (b - a), "y at a fractional index", rtol=1e-9, atol=1e-9 * L, index=j + fr)
        m.saw("fractional lookups")
    m.interesting(ny > 1)
