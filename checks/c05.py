"""C05: FCI maps"""
import numpy as np

from lib import fields, grids
from lib.harness import rng_of

PROPERTY = "C05"
LEVEL = "exploration"
REPEAT = 9
TECHNIQUE = "runtime monitoring: every entry of the maps compared with a reference trace and the analytic index of its end point"
RULE = (
    "Random grid (rectangular or elongated annulus, the same or different in every plane, 1 to 5 planes, periodic or not, uniform or not in y) x "
    "random field x 1 to 3 parallel slices x boundary (none, rectangle, polygon, one that moves with y) x tracer (default, recording, "
    "a different map altogether). R, Z, xt_prime, zt_prime of every cell and offset are compared with the reference trace and the analytic "
    "index. Non-trivial: the map is not the identity."
)
ASSUMPTIONS = [
    "DOP853 at rtol 1e-11 is the reference for field lines",
    "annular grids: the analytic index differs from that of the spline by less than 0.002",
    "annular grids: lines ending between 0.4 and 1 cells from the first or last surface may be marked or not (boundary objects: within 1e-4)",
]
BOX = ((0.6, 1.6), (-0.5, 0.5))
KINDS = ["slab", "curved", "straight", "ellipse", "screw", "custom", "custom", "custom"]


class Moving:
    """Boundary at x = a + b y"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.ys = []

    def outside(self, x, y, z):
        self.ys.append(y)
        return np.asarray(x) > self.a + self.b * y


class Recording:
    def __init__(self, tracer):
        self.tracer = tracer
        self.rtols = []

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
        self.rtols.append(rtol)
        return self.tracer.follow_field_lines(x_values, z_values, y_values, rtol=rtol)

    def judge(self, m, rtol):
        m.check(len(self.rtols) > 0, "given tracer not used")
        m.check(all(r == rtol for r in self.rtols), "given accuracy not used", got=str(set(self.rtols)))
        m.saw("calls of the given tracer", len(self.rtols))


class Other:
    """A tracer which has nothing to do with the field"""

    def __init__(self, spec):
        self.spec = spec

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
        return fields.trace(self.spec, x_values, z_values, y_values)


def cases(tier, rng):
    out = []
    for i in range(150 if tier == "quick" else 1500):
        out.append(
            dict(
                kind=["rect", "ann"][i % 2],
                nslice=int(rng.choice([1, 1, 2, 3])),
                boundary=["none", "rect", "poly", "moving"][int(rng.integers(4))],
                tracer=["default", "recording", "other"][int(rng.choice([0, 0, 1, 2]))],
                rtol=[None, 1e-10][int(rng.integers(2))],
                quiet=bool(rng.random() < 0.7),
                mxg=[None, 1, 3][int(rng.integers(3))],
                samples=2 if i % 10 == 9 else 1,
            )
        )
    return out


def name(f, off):
    if abs(off) < 1:
        return f"{f}_cell_y" + ("low" if off < 0 else "high")
    return ("forward_" if off > 0 else "backward_") + f + (f"_{abs(off)}" if abs(off) > 1 else "")


def make_boundary(kind, rng):
    """object, function(x, y, z) -> signed distance like number, positive outside"""
    from zoidberg import boundary

    if kind == "rect":
        b = [float(v) for v in (rng.uniform(0.7, 1.0), rng.uniform(1.15, 1.4), rng.uniform(-0.3, -0.05), rng.uniform(0.05, 0.3))]
        return boundary.RectangularBoundaryXZ(*b), lambda x, y, z: np.max([b[0] - x, x - b[1], b[2] - z, z - b[3]], axis=0)
    if kind == "poly":
        n = int(rng.integers(3, 9))
        c = (1.1 + float(rng.uniform(-0.1, 0.1)), float(rng.uniform(-0.1, 0.1)))
        a = np.sort((np.arange(n) + rng.uniform(-0.2, 0.2, n)) * 2 * np.pi / n)
        r = float(rng.uniform(0.2, 0.35))
        px, pz = c[0] + r * np.cos(a), c[1] + r * np.sin(a)
        if rng.random() < 0.5:
            px, pz = px[::-1], pz[::-1]
            sign = -1
        else:
            sign = 1

        def dist(x, y, z):  # convex, on a circle
            d = []
            for i in range(n):
                ex, ez = px[(i + 1) % n] - px[i], pz[(i + 1) % n] - pz[i]
                L = np.hypot(ex, ez)
                d.append(-sign * (ex * (z - pz[i]) - ez * (x - px[i])) / L)
            return np.max(d, axis=0)

        return boundary.PolygonBoundaryXZ(px, pz), dist
    if kind == "moving":
        b = Moving(float(rng.uniform(1.1, 1.3)), float(rng.uniform(-0.3, 0.3)))
        return b, lambda x, y, z: x - b.a - b.b * y
    return None, lambda x, y, z: np.full(np.shape(x), -1.0)


def given_tracer(zb, case, rng, f, spec, L):
    """field the lines follow, tracer to be asked about its calls, arguments"""
    kw, tracer, ref = {}, None, spec
    if case["tracer"] == "recording":
        tracer = kw["field_tracer"] = Recording(zb.fieldtracer.FieldTracer(f))
    elif case["tracer"] == "other":
        ref = fields.random_spec(rng, ["custom", "slab"], *BOX, length=L)
        kw["field_tracer"] = Other(ref)
    if case["rtol"]:
        kw["rtol"] = case["rtol"]
    return ref, tracer, kw


def run(case, m):
    import zoidberg as zb

    rng = rng_of(case)
    g = grids.random_grid(rng, kind=case["kind"])
    L = case["nslice"] * g["Ly"] / len(g["y"])
    spec = fields.random_spec(rng, KINDS, *BOX, length=L)
    m.note("grid", g)
    m.note("field", spec)
    bnd, dist = make_boundary(case["boundary"], rng)
    f = fields.build(spec, boundary=bnd)
    grid = grids.grid_build(g)
    kw = dict(nslice=case["nslice"], quiet=case["quiet"], n_chunks=1, refine_parallel_integral=1)
    ref, tracer, more = given_tracer(zb, case, rng, f, spec, L)
    kw.update(more)
    n = case["samples"]
    if n > 1:
        kw["samples_per_dim"] = n
    if case["mxg"]:
        kw["MXG"] = case["mxg"]
    maps = zb.make_maps(grid, f, **kw)

    R, Z = grids.coords(g)
    nx, ny, nz = R.shape
    m.close(maps["R"], R, "R of the grid", rtol=1e-12)
    m.close(maps["Z"], Z, "Z of the grid", rtol=1e-12, atol=1e-13)
    m.equal(maps["MXG"], case["mxg"] or 2, "MXG")
    m.equal(maps["MYG"], case["nslice"], "MYG")
    if n == 1:
        m.close(maps["subcell_weights"], [1.0], "weight of the only sample", rtol=1e-14)
    offs = [s * o for s in (1, -1) for o in [0.5] + list(range(1, case["nslice"] + 1))]
    moved = 0
    for j in range(ny):
        p0, y0 = grids.plane_at(g, j)
        for off in offs:
            if abs(off) < 1:
                pn, yn = grids.plane_at(g, j + (1 if off > 0 else -1))
                if pn is None:
                    continue
                p, y = None, 0.5 * (y0 + yn)
            else:
                p, y = grids.plane_at(g, j + off)
            end = fields.trace(ref, R[:, j], Z[:, j], [y0, y])[1]
            moved = max(moved, np.max(np.abs(end[..., 0] - R[:, j])), np.max(np.abs(end[..., 1] - Z[:, j])))
            d = dict(plane=j, offset=off)
            for c, k in enumerate("RZ"):
                a = maps[name(k, off)]
                m.equal(a.shape, R.shape, "shape of " + k, stop=True, **d)
                m.close(a[:, j], end[..., c], "position", rtol=0, atol=1e-5, **d)
            m.saw("lines", nx * nz)
            if abs(off) < 1:
                continue
            xt, zt = maps[name("xt_prime", off)][:, j], maps[name("zt_prime", off)][:, j]
            judge(m, p, y, end, xt, zt, dist, d)
            if n > 1:
                continue
            m.equal(maps[name("xt_primes", off)][:, j, :, 0], xt, "one sample is the centre", **d)
            m.equal(maps[name("zt_primes", off)][:, j, :, 0], zt, "one sample is the centre", **d)
    if n > 1:
        from checks.c06 import check_samples

        check_samples(m, maps, g, ref, n, case["nslice"], dist)
    if tracer is not None:
        tracer.judge(m, case["rtol"])
    m.interesting(moved > 1e-3)


def judge(m, p, y, end, xt, zt, dist, d):
    """Indices of end points ``end`` in plane ``p``"""
    if p is None:
        m.equal(xt, np.full(xt.shape, -1.0), "no destination plane", **d)
        m.equal(zt, np.full(xt.shape, -1.0), "no destination plane", **d)
        m.saw("lines without destination plane", xt.size)
        return
    ex, ez = end[..., 0], end[..., 1]
    xi, zi = grids.plane_index(p, ex, ez)
    b = np.broadcast_to(dist(ex, y, ez), xi.shape)
    out, inn = b > 1e-4, b < -1e-4
    m.saw("lines ending outside the boundary", np.sum(out))
    m.check(xt[out] == -1, "outside the boundary not marked", **d)
    m.check(zt[out] == -1, "outside the boundary not marked", **d)
    if p["kind"] == "rect":
        m.close(xt[inn], xi[inn], "x index", rtol=0, atol=3e-4, **d)
        m.close(zt[inn], zi[inn], "z index", rtol=0, atol=3e-4, **d)
        return
    nx, nz = p["nx"], p["nz"]
    lo, hi = inn & (xi < 0.4), inn & (xi > nx - 1.4)
    m.check(xt[lo] == -1, "inside the inner surface not marked", **d)
    m.check(xt[hi] == nx, "outside the outer surface not marked", **d)
    # The edge zone starts half a cell from the edge, but the search starts at the
    # nearest grid point, which may be on the edge up to a cell away
    ok = inn & (xi > 0.6) & (xi < nx - 1.6)
    ok &= ~((xi < 1.0) & (xt == -1)) & ~((xi > nx - 2.0) & (xt == nx))
    m.close(xt[ok], xi[ok], "x index in an annulus", rtol=0, atol=2e-3, **d)
    dz = np.mod(zt[ok] - zi[ok] + 0.5 * nz, nz) - 0.5 * nz
    m.close(dz, 0 * dz, "z index in an annulus", rtol=0, atol=2e-3, **d)
    m.saw("lines leaving at the inner surface", np.sum(lo))
    m.saw("lines leaving at the outer surface", np.sum(hi))
    m.saw("lines staying in the annulus", np.sum(ok))
