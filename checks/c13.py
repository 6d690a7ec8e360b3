"""C13: generated poloidal grids"""
import numpy as np

from lib import curves
from lib.harness import Stop, rng_of

PROPERTY = "C13"
LEVEL = "exploration"
REPEAT = 10
TECHNIQUE = "runtime monitoring: geometric and residual monitors over every point and cell of grids generated from random nested curves"
RULE = (
    "Random nested smooth curves (elongated, with harmonics, different numbers of unevenly spaced points, either orientation, any start point) x grid sizes "
    "(below and above the coarsening limit) x options of both generators (alignment, projection, relaxation, extra surfaces inside and outside, tolerance). "
    "Monitors: rows on an independent spline of the curves, cyclic order, cell orientation, residual of the elliptic equations at every inner point, "
    "extra surfaces, returned object against coordinates. Non-trivial: always."
)
ASSUMPTIONS = [
    "curves are nested with a clear gap and smooth on the scale of the grid",
    "with the default relaxation the terms a and b of the documented equations are weighted with its square and itself; without relaxation they are the documented ones",
]


def cases(tier, rng):
    out = []
    for i in range(240 if tier == "quick" else 6000):
        out.append(dict(gen=["elliptic", "annulus", "elliptic", "elliptic"][i % 4]))
    return out


def cost(case):
    return 3 if case["gen"] == "elliptic" else 1


def residual(R, Z, s):
    """Change of each inner point in one Jacobi step for the weighted equations"""
    nx, nz = R.shape
    dx, dz = 1.0 / (nx - 1), 2 * np.pi / nz

    def d(f):
        p, q = np.roll(f, -1, 1), np.roll(f, 1, 1)
        fx = (f[2:] - f[:-2]) / (2 * dx)
        fz = (p - q)[1:-1] / (2 * dz)
        fxx = (f[2:] - 2 * f[1:-1] + f[:-2]) / dx**2
        fzz = (p - 2 * f + q)[1:-1] / dz**2
        fxz = (p[2:] - p[:-2] - q[2:] + q[:-2]) / (4 * dx * dz)
        return fx, fz, fxx, fzz, fxz

    Rx, Rz, Rxx, Rzz, Rxz = d(R)
    Zx, Zz, Zxx, Zzz, Zxz = d(Z)
    a = s * s * (Rz**2 + Zz**2)
    b = s * (Rz * Rx + Zx * Zz)
    c = Rx**2 + Zx**2
    diag = 2 * a / dx**2 + 2 * c / dz**2
    return (a * Rxx - 2 * b * Rxz + c * Rzz) / diag, (a * Zxx - 2 * b * Zxz + c * Zzz) / diag


def run(case, m):
    from zoidberg import poloidal_grid as pg
    from zoidberg import rzline

    rng = rng_of(case)
    b = lambda p=0.5: bool(rng.random() < p)  # noqa
    elliptic = case["gen"] == "elliptic"
    R0 = float(rng.uniform(1.5, 3))
    ro, ri = 1.0 * float(rng.uniform(0.4, 1.0)), float(rng.uniform(0.25, 0.45))
    kap = float(rng.uniform(0.8, 1.3))
    co = curves.random_curve(rng, ro, int(rng.integers(30, 70)), R0, float(rng.uniform(-0.2, 0.2)), rough=0.7)
    ci = curves.random_curve(
        rng, ro * ri, int(rng.integers(30, 70)), R0 + 0.1 * ro * float(rng.uniform(-1, 1)), co["Z0"], rough=0.7
    )
    co["kappa"] = kap
    ci["kappa"] = kap * float(rng.uniform(0.9, 1.1))
    opt = {}
    if elliptic:
        mode = ["ort", "align", "legacy"][int(rng.integers(3))]
        if mode == "align":
            opt = dict(inner_ort=False)
        elif mode == "legacy":
            opt = dict(inner_ort=False, legacy_align=True)
        elif b(0.3):
            opt = dict(maxfac_inner=float(rng.choice([1.5, 2.0, 3.0])))
        elif b(0.4):
            opt = dict(inner_maxmode=int(rng.choice([4, 6, 200])))
        if b(0.25):
            opt["restrict_size"], opt["restrict_factor"] = [(15, 2), (17, 2), (50, 2)][int(rng.integers(3))]
        big = b(0.35)
        nx = int(rng.integers(22, 30)) if big and b() else int(rng.integers(5, 14))
        nz = int(rng.integers(22, 40)) if big else int(rng.integers(14, 21))
        if b(0.4) or nx * nz > 250:
            opt["tol"] = float(rng.choice([1e-8, 1e-9]))
        if b(0.5):
            opt["dz_relax"] = float(rng.choice([1.0, 1.0, 2.0]))
    else:
        mode = "annulus"
        ci["start"] = co["start"] + float(rng.uniform(-0.1, 0.1))
        ci["uneven"] = co["uneven"] = 0.0
        ci["reverse"] = co["reverse"]
        nx, nz = int(rng.integers(2, 14)), int(rng.integers(12, 40))
    m.note("curves", [ci, co])
    m.note("options", dict(nx=nx, nz=nz, **opt))
    inner, outer = rzline.RZline(*curves.points(ci)), rzline.RZline(*curves.points(co))
    si = curves.spline(*curves.anticlockwise(*curves.points(ci)))
    so = curves.spline(*curves.anticlockwise(*curves.points(co)))

    def gen(*args, **kwargs):
        if not elliptic:
            return pg.grid_annulus(*args, **kwargs)
        try:
            return pg.grid_elliptic(*args, **kwargs)
        except RuntimeError as e:
            # Not reaching the tolerance in the fixed number of iterations is
            # reported, and happens for large grids only
            if "converge" in str(e) and nx * nz > 250:
                m.saw("refusals of large grids")
                raise Stop
            raise

    R, Z = gen(inner, outer, nx, nz, return_coords=True, **opt)
    m.saw("grids generated by " + mode)
    m.saw("grid points", R.size)
    m.interesting()
    m.check(R.shape == (nx, nz) and Z.shape == (nx, nz), "requested number of points", got=[R.shape, Z.shape])
    m.check(np.isfinite(R) & np.isfinite(Z), "finite", stop=True)

    # rows on the curves, in order
    for name, row, s in (("inner", 0, si), ("outer", -1, so)):
        d, t = curves.project(*s, R[row], Z[row])
        m.close(d, 0 * d, f"{name} row on the {name} curve", rtol=0, atol=1e-7)
        st = np.diff(np.append(t, t[0]))
        st = (st + np.pi) % (2 * np.pi) - np.pi
        m.check(np.all(st > 0), f"{name} row runs round the {name} curve in order", steps=st)
        m.close(np.sum(st), 2 * np.pi, f"{name} row goes once round", rtol=0, atol=1e-6)
        m.saw("boundary points", nz)
        if name == "inner" and "maxfac_inner" in opt:
            m.check(st.max() / st.min() <= opt["maxfac_inner"] * 1.001, "maxfac_inner limits the spacing", got=st.max() / st.min())
            m.saw("grids with limited spacing")
    if opt.get("inner_maxmode", 0) > nz:
        # a limit which excludes nothing changes nothing
        free = gen(inner, outer, nx, nz, return_coords=True, **{k: v for k, v in opt.items() if k != "inner_maxmode"})
        m.close(R, free[0], "keeping all modes is as without a limit of the modes", rtol=0, atol=1e-6)
        m.close(Z, free[1], "keeping all modes is as without a limit of the modes", rtol=0, atol=1e-6)
        m.saw("grids with a limit of the modes that keeps all")
    # corresponding points of the two rows are near each other
    ang = [np.unwrap(np.arctan2(Z[r] - co["Z0"], R[r] - ci["R0"])) for r in (0, -1)]
    off = np.mean(ang[0] - ang[1])
    off = (off + np.pi) % (2 * np.pi) - np.pi
    lim = {"align": 0.35, "annulus": 0.35, "ort": 0.2, "legacy": 1.2}[mode]
    m.close(off, 0.0, f"inner and outer row aligned ({mode})", rtol=0, atol=lim)
    A = curves.cell_areas(R, Z)
    m.check(A < 0, "no folded cell, all cells with the same orientation", got=[A.min(), A.max()]) if A.mean() < 0 else m.check(
        A > 0, "no folded cell, all cells with the same orientation", got=[A.min(), A.max()]
    )
    m.saw("cells", A.size)
    # the grid fills the region
    row = lambda f, g: 0.5 * np.sum(f * np.roll(g, -1) - np.roll(f, -1) * g)  # noqa
    m.close(np.sum(np.abs(A)), row(R[-1], Z[-1]) - row(R[0], Z[0]), "cells fill the region", rtol=1e-9)

    # the grid object has the same coordinates (its splines need four surfaces)
    if nx >= 4:
        g = gen(inner, outer, nx, nz, **opt)
        m.equal(g.R, R, "R of the grid object")
        m.equal(g.Z, Z, "Z of the grid object")
        m.check((g.nx, g.nz) == (nx, nz), "size of the grid object")

    if not elliptic:
        th = 2 * np.pi * np.arange(nz) / nz
        x = np.linspace(0, 1, nx)[:, None]
        m.close(R, x * so[0](th) + (1 - x) * si[0](th), "straight lines R", rtol=1e-9)
        m.close(Z, x * so[1](th) + (1 - x) * si[1](th), "straight lines Z", rtol=0, atol=1e-8)
        return

    if nx > 2:
        s = opt.get("dz_relax", 10 / 3)
        e = np.hypot(*residual(R, Z, s))
        tol = np.sqrt(opt.get("tol", 1e-10))
        m.check(np.max(e) <= 1.5 * tol, "elliptic equations solved to the tolerance", got=float(e.max() / tol))
        m.margins["residual over tolerance"] = float(e.max() / tol / 1.5)
        m.saw("points with residual", e.size)

    # extra surfaces
    no, ni = int(rng.integers(0, 4)), int(rng.integers(0, 3))
    if no + ni:
        kw = dict(opt)
        if no:
            kw["nx_outer"] = no
        if ni:
            kw["nx_inner"] = ni
        R2, Z2 = gen(inner, outer, nx + no + ni, nz, return_coords=True, **kw)
        m.saw("grids with extra surfaces")
        if m.check(R2.shape == (nx + no + ni, nz), "size with extra surfaces", got=R2.shape):
            m.close(R2[ni : ni + nx], R, "extra surfaces leave the rest alone: R", rtol=1e-9)
            m.close(Z2[ni : ni + nx], Z, "extra surfaces leave the rest alone: Z", rtol=0, atol=1e-9)
            for k in range(1, no + 1):
                m.close(R2[ni + nx - 1 + k], R[-1] + k * (R[-1] - R[-2]), "outer surfaces continue the grid: R", rtol=1e-9)
                m.close(Z2[ni + nx - 1 + k], Z[-1] + k * (Z[-1] - Z[-2]), "outer surfaces continue the grid: Z", atol=1e-9)
            for k in range(1, ni + 1):
                m.close(R2[ni - k], R[0] + k * (R[0] - R[1]), "inner surfaces continue the grid: R", rtol=1e-9)
                m.close(Z2[ni - k], Z[0] + k * (Z[0] - Z[1]), "inner surfaces continue the grid: Z", atol=1e-9)

    # the start point of the inner curve is of no importance
    k = int(rng.integers(1, ci["n"]))
    inner2 = rzline.RZline(np.roll(inner.R, k), np.roll(inner.Z, k))
    R3, Z3 = gen(inner2, outer, nx, nz, return_coords=True, **opt)
    tol = 1e-3 * ro if mode == "ort" else 1e-7
    m.close(R3, R, f"independent of the start of the inner curve ({mode}): R", rtol=0, atol=tol)
    m.close(Z3, Z, f"independent of the start of the inner curve ({mode}): Z", rtol=0, atol=tol)
