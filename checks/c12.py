"""C12: metrics"""
import numpy as np

from lib import fields, grids
from lib.harness import rng_of

PROPERTY = "C12"
LEVEL = "exploration"
REPEAT = 14
TECHNIQUE = "runtime monitoring: metric of every cell compared with the analytic geometry and its own inverse, across call histories"
RULE = (
    "Random grids (rectangular and annular, equal or different planes, 1 to 6 planes, uniform or not in y, periodic or not) x fields with and without major "
    "radius, queried in random order and repeatedly. Every coefficient of every cell is compared with the formula of the grid. Non-trivial: always."
)
ASSUMPTIONS = ["annuli have at least 24 points round; coefficients are compared to 3e-4 of their size"]
BOX = ((0.6, 1.6), (-0.5, 0.5))


def cases(tier, rng):
    return [
        dict(
            kind=["rect", "ann"][i % 2],
            field=["slab", "curved", "straight", "ellipse", "screw", "custom"][i % 6],
            ny=[1, 2, 3, 4, 6][i // 2 % 5],
        )
        for i in range(160 if tier == "quick" else 1600)
    ]


def reference(g):
    """metric by formula: dict of [nx,ny,nz]"""
    ny = len(g["y"])
    out = []
    for j in range(ny):
        p, _ = grids.plane_at(g, j)
        x, z = np.meshgrid(np.arange(p["nx"]), np.arange(p["nz"]), indexing="ij")
        Rx, Zx, Rz, Zz = grids.plane_deriv(p, x, z)
        out.append((Rx**2 + Zx**2, Rx * Rz + Zx * Zz, Rz**2 + Zz**2))
    xx, xz, zz = (np.stack([o[i] for o in out], 1) for i in range(3))
    y = np.array(g["y"])
    L = g["Ly"]
    if ny == 1:
        dy = np.array([L])
    elif g["periodic"]:
        nxt = np.append(y[1:], y[0] + L)
        prv = np.insert(y[:-1], 0, y[-1] - L)
        dy = 0.5 * (nxt - prv)
    else:
        dy = np.empty(ny)
        dy[1:-1] = 0.5 * (y[2:] - y[:-2])
        dy[0], dy[-1] = y[1] - y[0], y[-1] - y[-2]
    return xx, xz, zz, dy


def check_metric(m, g, t, tag=""):
    xx, xz, zz, dy = reference(g)
    dx, dz = t["dx"], t["dz"]
    rtol = 1e-9 if g["planes"][0]["kind"] == "rect" else 3e-4
    s = np.sqrt(xx * zz)
    m.close(t["g_xx"] * dx**2 / xx, np.ones(xx.shape), tag + "g_xx", rtol=rtol)
    m.close(t["g_zz"] * dz**2 / zz, np.ones(xx.shape), tag + "g_zz", rtol=rtol)
    m.close(t["g_xz"] * dx * dz / s, xz / s, tag + "g_xz", rtol=0, atol=rtol)
    one = t["g_xx"] * t["gxx"] + t["g_xz"] * t["gxz"]
    two = t["g_zz"] * t["gzz"] + t["g_xz"] * t["gxz"]
    o1 = (t["g_xx"] * t["gxz"] + t["g_xz"] * t["gzz"]) * dz / dx
    m.close(one, np.ones(xx.shape), tag + "inverse xx", rtol=1e-8)
    m.close(two, np.ones(xx.shape), tag + "inverse zz", rtol=1e-8)
    m.close(o1, 0 * xx, tag + "inverse xz", rtol=0, atol=1e-8)
    m.check((t["g_xx"] > 0) & (t["g_xx"] * t["g_zz"] > t["g_xz"] ** 2), tag + "positive definite")
    m.check((dx > 0) & (dz > 0), tag + "positive dx, dz")
    m.close(t["dy"], np.broadcast_to(dy[None, :, None], xx.shape), tag + "dy", rtol=1e-9)
    p = g["planes"][0]
    if p["kind"] == "rect":
        for j in range(xx.shape[1]):
            a, b = grids.rect_d(grids.plane_at(g, j)[0])
            m.close(dx[:, j], np.full(dx[:, j].shape, a), tag + "dx", rtol=1e-9)
            m.close(dz[:, j], np.full(dz[:, j].shape, b), tag + "dz", rtol=1e-9)
    m.saw("cells", xx.size)


def run(case, m):
    import zoidberg as zb
    from zoidberg.zoidberg import get_metric

    rng = rng_of(case)
    g = grids.random_grid(rng, kind=case["kind"], ny=case["ny"], Ly=float(rng.choice([0.5, 2 * np.pi, 11.0])))
    spec = fields.random_spec(rng, [case["field"]], *BOX, length=1.0)
    if case["field"] == "custom":
        spec["pressure"] = [float(v) for v in rng.uniform(0.5, 2, 3)]
    m.note("grid", g)
    m.note("field", spec)
    grid = grids.grid_build(g)
    f = fields.build(spec)
    R, Z = grids.coords(g)
    y = np.array(g["y"])[None, :, None]
    comp = fields.components(spec)
    Bx, By, Bz, Rm = [np.empty(R.shape) for _ in range(4)]
    for j in range(R.shape[1]):
        c = comp(R[:, j], Z[:, j], g["y"][j])
        Bx[:, j], By[:, j], Bz[:, j] = c[0], c[1], c[2]
        Rm[:, j] = 1.0 if c[3] is None else c[3]
    B = np.sqrt(Bx**2 + By**2 + Bz**2)
    first = {}

    def grid_metric():
        t = grid.metric()
        check_metric(m, g, t)
        m.close(t["g_yy"], np.ones(R.shape), "Cartesian g_yy", rtol=1e-12)
        m.close(t["gyy"], np.ones(R.shape), "Cartesian gyy", rtol=1e-12)
        return t

    def field_metric():
        t, BJg = get_metric(grid, f)
        check_metric(m, g, t, "with field ")
        gy = (Rm * B / By) ** 2
        m.close(t["g_yy"] / gy, np.ones(R.shape), "g_yy", rtol=1e-8)
        m.close(t["gyy"] * gy, np.ones(R.shape), "gyy", rtol=1e-8)
        m.close(t["B"], B, "B", rtol=1e-8)
        m.close(t["Bxy"], B, "Bxy", rtol=1e-8)
        pr = fields.pressure_ref(spec)
        m.close(t["pressure"], pr(R, Z, y) + 0 * R, "pressure", rtol=1e-9)
        want = B * np.sqrt(t["g_xx"] * t["g_zz"] - t["g_xz"] ** 2)
        m.close(BJg, want, "B J / sqrt(g_22)", rtol=1e-8)
        return t

    def pol_metric():
        j = int(rng.integers(R.shape[1]))
        t = grid.getPoloidalGrid(j)[0].metric()
        g1 = dict(g, planes=[grids.plane_at(g, j)[0]], y=[g["y"][j]])
        nx, ny, nz = R.shape
        t = {k: np.broadcast_to(v, (nx, nz))[:, None, :] for k, v in t.items()}
        t["dy"] = np.full((nx, 1, nz), g["Ly"])
        check_metric(m, g1, t, "poloidal ")
        return {k + str(j): v for k, v in t.items()}

    for step in range(6):
        which = [grid_metric, field_metric, pol_metric][int(rng.integers(3))] if step else field_metric
        t = which()
        m.saw("calls of " + which.__name__)
        for k, v in t.items():
            key = (which.__name__, k)
            v = np.array(v, copy=True)
            if key in first:
                m.equal(v, first[key], "same answer again: " + k)
            else:
                first[key] = v
    m.interesting()
