"""Grids for the workloads, described by JSON and with independent references"""
import numpy as np


# ------------------------------------------------------------- poloidal grids
def plane_build(p):
    from zoidberg import poloidal_grid as pg

    if p["kind"] == "rect":
        kw = {} if p["MXG"] == 2 else {"MXG": p["MXG"]}
        return pg.RectangularPoloidalGrid(p["nx"], p["nz"], p["Lx"], p["Lz"], p["Rc"], p["Zc"], **kw)
    x, z = np.meshgrid(np.arange(p["nx"]), np.arange(p["nz"]), indexing="ij")
    R, Z = plane_pos(p, x, z)
    return pg.StructuredPoloidalGrid(R, Z)


def plane_pos(p, x, z):
    """Position of (fractional) indices by formula"""
    x = np.asarray(x, dtype=float)
    z = np.asarray(z, dtype=float)
    if p["kind"] == "rect":
        dR, dZ = rect_d(p)
        return (
            p["Rc"] + (x - 0.5 * (p["nx"] - 1)) * dR,
            p["Zc"] + (z - 0.5 * (p["nz"] - 1)) * dZ,
        )
    r = p["r0"] + (p["r1"] - p["r0"]) * x / (p["nx"] - 1)
    t = p["delta"] + 2 * np.pi * z / p["nz"]
    return p["R0"] + r * np.cos(t), p["Z0"] + p["kappa"] * r * np.sin(t)


def plane_deriv(p, x, z):
    """dR/dx, dZ/dx, dR/dz, dZ/dz with respect to index"""
    x = np.asarray(x, dtype=float)
    z = np.asarray(z, dtype=float)
    o = np.zeros(np.broadcast(x, z).shape)
    if p["kind"] == "rect":
        dR, dZ = rect_d(p)
        return o + dR, o, o, o + dZ
    dr = (p["r1"] - p["r0"]) / (p["nx"] - 1)
    dt = 2 * np.pi / p["nz"]
    r = p["r0"] + dr * x
    t = p["delta"] + dt * z
    k = p["kappa"]
    return dr * np.cos(t) + o, k * dr * np.sin(t) + o, -r * dt * np.sin(t), k * r * dt * np.cos(t)


def plane_index(p, R, Z):
    """Fractional index of a position, unlimited"""
    if p["kind"] == "rect":
        dR, dZ = rect_d(p)
        return (R - p["Rc"]) / dR + 0.5 * (p["nx"] - 1), (Z - p["Zc"]) / dZ + 0.5 * (p["nz"] - 1)
    u, v = R - p["R0"], (Z - p["Z0"]) / p["kappa"]
    r = np.hypot(u, v)
    t = np.arctan2(v, u)
    return (
        (r - p["r0"]) / (p["r1"] - p["r0"]) * (p["nx"] - 1),
        np.mod((t - p["delta"]) / (2 * np.pi) * p["nz"], p["nz"]),
    )


def rect_d(p):
    return p["Lx"] / (p["nx"] - 2 * p["MXG"]), p["Lz"] / p["nz"]


# ------------------------------------------------------------------ 3D grids
def grid_build(g):
    from zoidberg import grid

    if g.get("helper"):
        p = g["planes"][0]
        return grid.rectangular_grid(
            p["nx"],
            len(g["y"]),
            p["nz"],
            Lx=p["Lx"],
            Ly=g["Ly"],
            Lz=p["Lz"],
            xcentre=p["Rc"],
            zcentre=p["Zc"],
            yperiodic=g["periodic"],
        )
    if len(g["planes"]) == 1:
        return grid.Grid(plane_build(g["planes"][0]), np.array(g["y"]), g["Ly"], yperiodic=g["periodic"])
    return grid.Grid([plane_build(p) for p in g["planes"]], np.array(g["y"]), g["Ly"], yperiodic=g["periodic"])


def plane_at(g, j):
    """(description of the plane or None, y) for any integer j"""
    ny = len(g["y"])
    pl = g["planes"]
    if 0 <= j < ny:
        return pl[j % len(pl)] if len(pl) > 1 else pl[0], g["y"][j]
    if g["periodic"]:
        return pl[j % ny] if len(pl) > 1 else pl[0], g["y"][j % ny] + (j // ny) * g["Ly"]
    return None, (0.0 if j < 0 else g["Ly"])


def coords(g):
    """R, Z by formula [nx, ny, nz]"""
    out = []
    for j in range(len(g["y"])):
        p, _ = plane_at(g, j)
        x, z = np.meshgrid(np.arange(p["nx"]), np.arange(p["nz"]), indexing="ij")
        out.append(plane_pos(p, x, z))
    R = np.stack([o[0] for o in out], 1)
    Z = np.stack([o[1] for o in out], 1)
    return R, Z


def random_ycoords(rng, ny, Ly, periodic, uniform):
    if uniform:
        return (np.arange(ny) + (0.0 if periodic else 0.5)) * Ly / ny
    # cells of different lengths, planes in the middle of their cells
    w = rng.uniform(0.6, 1.4, ny)
    e = np.concatenate([[0], np.cumsum(w)]) * Ly / np.sum(w)
    return 0.5 * (e[1:] + e[:-1])


def random_grid(
    rng, kind=None, nx=None, ny=None, nz=None, Ly=None, periodic=None, uniform=None, same=None, nzmin=24, helper=None
):
    """Box about (0.6..1.6) x (-0.5..0.5)"""
    b = lambda p=0.5: bool(rng.random() < p)  # noqa
    u = lambda lo, hi: float(rng.uniform(lo, hi))  # noqa
    kind = kind or ["rect", "ann"][int(b())]
    periodic = b() if periodic is None else periodic
    uniform = b(0.6) if uniform is None else uniform
    same = b(0.4) if same is None else same
    ny = int(rng.integers(1, 6)) if ny is None else ny
    Ly = float(rng.choice([0.5, 1.0, 2 * np.pi / 5])) if Ly is None else Ly
    if kind == "rect":
        nx = int(rng.integers(7, 12)) if nx is None else nx
        nz = int(rng.integers(3, 9)) if nz is None else nz

        def plane():
            return dict(
                kind="rect", nx=nx, nz=nz, Lx=u(0.3, 0.7), Lz=u(0.3, 0.8), Rc=u(1.0, 1.2), Zc=u(-0.1, 0.1), MXG=mxg
            )

        mxg = int(rng.choice([2, 2, 1, 0]))
        helper = (same and uniform and b()) if helper is None else helper
        if helper:
            mxg = 2
    else:
        nx = int(rng.integers(7, 12)) if nx is None else nx
        nz = int(rng.integers(nzmin, nzmin + 12)) if nz is None else nz
        helper = False
        base = dict(R0=u(1.05, 1.15), Z0=u(-0.05, 0.05), r0=u(0.1, 0.16), r1=u(0.3, 0.38))

        def plane():
            return dict(
                kind="ann",
                nx=nx,
                nz=nz,
                R0=base["R0"] + u(-0.02, 0.02),
                Z0=base["Z0"] + u(-0.02, 0.02),
                r0=base["r0"],
                r1=base["r1"] * u(0.95, 1.05),
                kappa=u(0.8, 1.25),
                delta=u(-4, 4),
            )

    planes = [plane()] if same else [plane() for _ in range(ny)]
    return dict(
        planes=planes,
        y=[float(v) for v in random_ycoords(rng, ny, Ly, periodic, uniform or helper)],
        Ly=Ly,
        periodic=periodic,
        helper=bool(helper),
    )


# ------------------------------------------------------------- sub-cell starts
def subcell_starts(p, xo, zo):
    """Start points of the sub-cell sample at offset (xo, zo) in index: the
    cell centres are joined linearly (the ring is closed in z)"""
    nx, nz = p["nx"], p["nz"]
    x, z = np.meshgrid(np.arange(nx) + xo, np.arange(nz) + zo, indexing="ij")
    if p["kind"] == "rect":
        return plane_pos(p, x, z)
    i = np.clip(np.floor(x), 0, nx - 2)
    k = np.floor(z)
    a, b = x - i, z - k
    out = []
    for c in range(2):
        P = lambda ii, kk: plane_pos(p, ii, kk)[c]  # noqa
        out.append(
            (1 - a) * (1 - b) * P(i, k) + a * (1 - b) * P(i + 1, k) + (1 - a) * b * P(i, k + 1) + a * b * P(i + 1, k + 1)
        )
    return out
