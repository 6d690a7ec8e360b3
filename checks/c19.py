"""C19: DAGP finite volume coefficients"""
import sys

import numpy as np

from lib import fields, grids
from lib.harness import rng_of
from checks.c17 import read

PROPERTY = "C19"
LEVEL = "exploration"
REPEAT = 8
TECHNIQUE = "runtime monitoring: fluxes, volumes and balances of every cell evaluated from the written coefficients and compared with integrals over the cell; interruptions injected at every kind of source line while generating, then resumed"
RULE = (
    "Random rectangular and annular grids, slab and cylindrical fields; coefficients from doit for one or several planes and from MapWriter.add_dagp. In every case the stencil is applied to constant, "
    "linear and quadratic functions. Interrupted runs raise KeyboardInterrupt at a random executed line of add_dagp's module or inside the computation of a random plane, once or repeatedly, then resume in a reopened file. "
    "Non-trivial: the grid is curved or the run was interrupted."
)
ASSUMPTIONS = [
    "annuli have at least 32 points round and 8 across; integrals over curved cells are compared to 3e-4",
    "an interruption is an exception that closes the file; a killed process loses the netCDF file itself",
    "rectangular grids have at least 3 points in z",
]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(120 if q else 1200):
        out.append(dict(kind="coefficients", grid=["ann", "rect"][i % 2], slab=bool(i // 2 % 2), ny=[1, 2, 3][i % 3]))
    for i in range(64 if q else 600):
        out.append(dict(kind="resume", grid=["ann", "rect"][i % 2], slab=bool(i // 2 % 2), ny=int(rng.integers(1, 6)), how=["line", "plane", "line"][i % 3], times=int(rng.integers(1, 4))))
    return out


def edge(p, x, z, n=60):
    """positions along an edge given arrays of end indices, Gauss-free dense"""
    return grids.plane_pos(p, x, z)


def face_integrals(p, x0, z0, x1, z1, slab, n=16):
    """(int w dR, int w dZ) along the index line from (x0, z0) to (x1, z1), w = R or 1"""
    t, w = np.polynomial.legendre.leggauss(n)
    t, w = 0.5 * (t + 1), 0.5 * w
    IR = IZ = 0
    for a, b in zip(t, w):
        x, z = x0 + a * (x1 - x0), z0 + a * (z1 - z0)
        Rx, Zx, Rz, Zz = grids.plane_deriv(p, x, z)
        W = 1.0 if slab else grids.plane_pos(p, x, z)[0]
        IR = IR + b * W * (Rx * (x1 - x0) + Rz * (z1 - z0))
        IZ = IZ + b * W * (Zx * (x1 - x0) + Zz * (z1 - z0))
    return IR, IZ


def volumes(p, slab):
    nx, nz = p["nx"], p["nz"]
    x, z = np.meshgrid(np.arange(1, nx - 1), np.arange(nz), indexing="ij")
    t, w = np.polynomial.legendre.leggauss(8)
    t, w = 0.5 * t, 0.5 * w
    V = A = 0
    for a, wa in zip(t, w):
        for b, wb in zip(t, w):
            Rx, Zx, Rz, Zz = grids.plane_deriv(p, x + a, z + b)
            J = Rx * Zz - Rz * Zx
            A = A + wa * wb * J
            V = V + wa * wb * J * (1.0 if slab else grids.plane_pos(p, x + a, z + b)[0])
    return V, A


def check_plane(m, p, c, slab):
    """c: dagp_fv_* arrays [nx, nz] of one plane"""
    nx, nz = p["nx"], p["nz"]
    rect = p["kind"] == "rect"
    tol = 1e-8 if rect else 3e-4
    for k, v in c.items():
        m.check(v.shape == (nx, nz), f"shape of {k}", got=v.shape, stop=True)
        m.check(np.isfinite(v), f"finite {k}")
    V, A = volumes(p, slab)
    m.close(c["dagp_fv_volume"][1:-1] / V, np.ones(V.shape), "volume", rtol=tol)
    x, z = np.meshgrid(np.arange(nx), np.arange(nz + 2) - 1, indexing="ij")
    R, Z = grids.plane_pos(p, x, z)  # one z point more on each side

    XX, XZ, ZX, ZZ = (c["dagp_fv_" + k] for k in ("XX", "XZ", "ZX", "ZZ"))

    def fluxes(f):
        dx = f[1:, 1:-1] - f[:-1, 1:-1]
        d2 = f[:, 2:] - f[:, :-2]
        FX = XX[:-1] * dx + XZ[:-1] * 0.5 * (d2[1:] + d2[:-1])
        e = f[2:] - f[:-2]
        FZ = ZX[1:-1] * 0.5 * (e[:, 1:-1] + e[:, 2:]) + ZZ[1:-1] * (f[1:-1, 2:] - f[1:-1, 1:-1])
        return FX, FZ

    def balance(FX, FZ):
        return FX[1:] - FX[:-1] + FZ - np.roll(FZ, 1, axis=1)

    # -- constant
    for F in fluxes(np.full(R.shape, 3.7)):
        m.check(F == 0, "no flux of a constant")
    # -- linear: through every face
    i, k = np.meshgrid(np.arange(nx - 1), np.arange(nz), indexing="ij")
    xR, xZ = face_integrals(p, i + 0.5, k - 0.5, i + 0.5, k + 0.5, slab)
    i, k = np.meshgrid(np.arange(1, nx - 1), np.arange(nz), indexing="ij")
    zR, zZ = face_integrals(p, i - 0.5, k + 0.5, i + 0.5, k + 0.5, slab)
    sx, sz = np.max(np.hypot(xR, xZ)), np.max(np.hypot(zR, zZ))
    for f, wx, wz, lap in ((R, xZ, -zZ, 0.0 if slab else A), (Z, -xR, zR, 0.0)):
        FX, FZ = fluxes(f)
        # the surface integral of the normal: (dZ, -dR) through x faces
        m.close(FX / sx, wx / sx, "flux of linear functions through x faces", rtol=0, atol=tol)
        m.close(FZ / sz, wz / sz, "flux of linear functions through z faces", rtol=0, atol=tol)
        # and balance exactly the volume integral of the Laplacian, not only
        # as far as the faces are resolved
        m.close(balance(FX, FZ) / sx, lap / sx + 0 * V, "balance of linear functions", rtol=0, atol=tol)
    if rect:
        # exact for quadratics; z is a line here, no wrap
        for f, want in (
            (R**2, (2.0 if slab else 4.0 * R[1:-1, 1:-1]) * A),
            (Z**2, 2.0 * V),
        ):
            FX, FZ = fluxes(f)
            b = balance(FX, FZ)
            m.close(b[:, 1:] / np.max(V), want[:, 1:] / np.max(V) + 0 * b[:, 1:], "balance of quadratic functions", rtol=1e-7, atol=1e-7)
    m.saw("cells", V.size)
    m.saw("faces", xR.size + zR.size)


def make(case, rng):
    g = grids.random_grid(
        rng, kind=case["grid"], ny=case["ny"], uniform=True,
        nx=int(rng.integers(8, 12)) if case["grid"] == "ann" else int(rng.integers(5, 10)),
        nz=int(rng.integers(32, 44)) if case["grid"] == "ann" else int(rng.integers(3, 9)),
    )  # fmt: skip
    spec = fields.random_spec(rng, ["slab"] if case["slab"] else ["screw", "ellipse", "custom", "curved"], length=1.0)
    return g, spec


class Interrupt(KeyboardInterrupt):
    pass


def run(case, m):
    from zoidberg import stencil_dagp_fv as dagp
    from zoidberg import zoidberg as zz
    from zoidberg.zoidberg import MapWriter

    rng = rng_of(case)
    g, spec = make(case, rng)
    m.note("grid", g)
    grid = grids.grid_build(g)
    field = fields.build(spec)
    ny = case["ny"]

    if case["kind"] == "coefficients":
        planes = [grids.plane_at(g, j)[0] for j in range(ny)]
        per = [dagp.doit([grid.getPoloidalGrid(j)[0]], isSlab=case["slab"]) for j in range(ny)]
        for p, c in zip(planes, per):
            check_plane(m, p, {k: v[:, 0] for k, v in c.items()}, case["slab"])
        if len({p["Lz"] if p["kind"] == "rect" else 0 for p in planes}) == 1:
            allc = dagp.doit([grid.getPoloidalGrid(j)[0] for j in range(ny)], isSlab=case["slab"])
            for k, v in allc.items():
                m.close(v, np.concatenate([c[k] for c in per], axis=1), "planes together and one by one", rtol=1e-10, atol=1e-13)
        m.interesting(case["grid"] == "ann")
        return

    # -- uninterrupted
    with MapWriter("a.nc", quiet=True) as mw:
        mw.add_grid_field(grid, field)
        mw.add_dagp()
    want, _, _ = read("a.nc")
    for j in range(ny):
        check_plane(m, grids.plane_at(g, j)[0], {k: want[k][:, j] for k in want if k.startswith("dagp_fv_")}, case["slab"])

    # reading the coefficients back
    RZ, vol, cX, cZ = dagp.load("a.nc")
    m.equal(np.array(RZ), np.array([want["R"], want["Z"]]), "positions read back")
    m.equal(np.array(vol), want["dagp_fv_volume"], "volume read back")
    for i, k in enumerate("XZ"):
        m.equal(cX[..., i], want["dagp_fv_X" + k][:-1], "coefficients read back")
        m.equal(cZ[..., i], want["dagp_fv_Z" + k][1:-1], "coefficients read back")
    m.saw("files read back")

    # how many lines does it execute?
    src = zz.__file__
    state = dict(n=0, stop=None)

    def tracer(frame, event, arg):
        if frame.f_code.co_filename != src:
            return None
        if event == "line":
            state["n"] += 1
            if state["stop"] is not None and state["n"] >= state["stop"]:
                state["stop"] = None
                raise Interrupt()
        return tracer

    def go(fn, create, stop=None):
        done = False
        try:
            with MapWriter(fn, quiet=True, create=create) as mw:
                mw.add_grid_field(grid, field)
                state.update(n=0, stop=stop)
                sys.settrace(tracer)
                try:
                    mw.add_dagp()
                    done = True
                finally:
                    sys.settrace(None)
        except Interrupt:
            m.saw("interruptions")
        return done

    org = dagp.doit
    if case["how"] == "line":
        go("b.nc", True)
        total = state["n"]
        m.saw("lines counted", total)
        create = True
        for _ in range(case["times"]):
            # the later it gets, the fewer lines remain
            stop = int(rng.integers(1, total + 1)) if create else int(rng.integers(1, max(2, total // 2)))
            done = go("c.nc", create, stop)
            create = False
            if done:
                break
    else:
        create = True
        for _ in range(case["times"]):
            calls = dict(n=0, at=int(rng.integers(1, ny + 1)))

            def faulty(*a, **k):
                calls["n"] += 1
                if calls["n"] == calls["at"]:
                    raise Interrupt()
                return org(*a, **k)

            dagp.doit = faulty
            try:
                go("c.nc", create)
            finally:
                dagp.doit = org
            create = False
    # -- resume to the end; only the planes not done yet may be computed again
    with_progress = int(read("c.nc")[0].get("_dagp_generation_progress", 0))
    m.saw("planes done before resuming", max(with_progress, 0))
    m.check(go("c.nc", False), "resumed run completes")
    got, _, _ = read("c.nc")
    m.check(set(got) == set(want), "same variables after resuming", diff=sorted(set(got) ^ set(want)))
    for k in sorted(set(got) & set(want)):
        m.equal(got[k], want[k], f"same {k} after resuming")
    # once more changes nothing
    go("c.nc", False)
    got, _, _ = read("c.nc")
    for k in sorted(set(got) & set(want)):
        m.equal(got[k], want[k], f"same {k} when complete")
    m.interesting()
