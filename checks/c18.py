"""C18: J, Ly, By"""
import numpy as np

from lib import fields, grids
from lib.harness import rng_of
from checks.c12 import reference

PROPERTY = "C18"
LEVEL = "exploration"
REPEAT = 3
TECHNIQUE = "runtime monitoring: J, Ly and By of every cell compared with integrals along reference field lines of an independent integrator; chunkings compared with each other"
RULE = (
    "Random evenly (6 of 7) and unevenly spaced grids (rectangular and annular, different planes, 1 to 5 planes, periodic or not) x fields (cylindrical, slab, Cartesian) x refinements 1 to 20 x chunk counts from 1 to more than nx. "
    "The reference follows the line of every cell to the neighbouring planes with DOP853 and integrates with Gauss-Legendre. Non-trivial: By or the position varies along the lines."
)
ASSUMPTIONS = [
    "J is only compared for planes that are evenly spaced in y, lengths and By for all",
    "the quadrature error of the trapezoidal rule with the requested refinement is allowed",
    "only cells whose lines stay in the region where the fields are smooth (0.4 < x < 1.8, |z| < 0.7) are compared",
    "fields without x as the major radius are a known finding: there J and Ly are accepted if they are either right or those of a toroidal field",
]
BOX = ((0.6, 1.6), (-0.5, 0.5))


def cases(tier, rng):
    out = []
    for i in range(96 if tier == "quick" else 900):
        f = ["ellipse", "custom", "screw", "custom", "slab", "ellipse", "straight", "custom", "curved", "custom"][i % 10]
        out.append(dict(kind=["ann", "rect"][i // 10 % 2], field=f, ny=[1, 2, 3, 5][i // 3 % 4], refine=[20, 5, 2, 8, 1][i % 5], uneven=i % 7 == 3))
    return out


def gauss(a, b, n=12):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (a + b) + 0.5 * (b - a) * x, 0.5 * (b - a) * w


def run(case, m):
    import zoidberg as zb

    rng = rng_of(case)
    g = grids.random_grid(rng, kind=case["kind"], ny=case["ny"], uniform=not case["uneven"], nx=int(rng.integers(5, 9)), nz=int(rng.integers(24, 30)) if case["kind"] == "ann" else None)
    spec = fields.random_spec(rng, [case["field"]], *BOX, length=g["Ly"])
    if case["field"] == "custom" and rng.random() < 0.7:
        spec["R"] = "x"
    m.note("grid", g)
    m.note("field", spec)
    grid = grids.grid_build(g)
    f = fields.build(spec)
    ny = len(g["y"])
    R, Z = grids.coords(g)
    nx, _, nz = R.shape
    r = case["refine"]
    kw = dict(quiet=True, refine_parallel_integral=r)
    if r == 20:
        kw = dict(quiet=True)
    maps = zb.make_maps(grid, f, nslice=1, **kw)

    comp = fields.components(spec)
    d = fields.direction(spec)
    slab = spec["type"] == "slab"
    torus = comp(R[:, 0], Z[:, 0], 0.0)[3] is not None and (
        spec["type"] in ("ellipse", "screw") or spec.get("R") == "x"
    )
    P = {k: np.empty(R.shape) for k in ["Jt", "Jc", "Jtt", "Jct", "By_cell_ylow", "By", "By_cell_yhigh"]}
    Lt = [np.empty(R.shape) for _ in range(3)]
    Lc = [np.empty(R.shape) for _ in range(3)]
    ok = np.ones(R.shape, bool)
    for j in range(ny):
        y0 = g["y"][j]
        if g["periodic"]:
            lo = g["y"][j - 1] - (g["Ly"] if j == 0 else 0)
            hi = g["y"][(j + 1) % ny] + (g["Ly"] if j == ny - 1 else 0)
        else:
            # as far beyond the end as the plane is before it
            lo = g["y"][j - 1] if j else -y0
            hi = g["y"][j + 1] if j < ny - 1 else 2 * g["Ly"] - y0
        dys = 0.5 * (hi - lo)
        dlo, dhi = 0.5 * (y0 - lo), 0.5 * (hi - y0)
        segs = [gauss(a, a + b) for a, b in ((lo, dlo), (lo + dlo, dlo), (y0, dhi), (y0 + dhi, dhi))]
        trap = np.concatenate([np.linspace(y0 - dlo, y0, r + 1), np.linspace(y0, y0 + dhi, r + 1)[1:]])
        want = np.concatenate([s[0] for s in segs] + [trap])
        up = np.unique(want[want > y0 + 1e-14])
        dn = np.unique(want[want < y0 - 1e-14])[::-1]
        pos = {y0: (R[:, j], Z[:, j])}
        for ys in (up, dn):
            t = fields.trace(spec, R[:, j], Z[:, j], np.concatenate([[y0], ys]), rtol=1e-10, atol=1e-12)
            for yy, q in zip(ys, t[1:]):
                pos[float(yy)] = (q[..., 0], q[..., 1])

        def at(yy):
            k = y0 if abs(yy - y0) <= 1e-14 else float(yy)
            x, z = pos[k]
            Bx, By, Bz, Rm = comp(x, z, k)
            ux, uz = d(x, z, k)
            return x, np.broadcast_to(By, x.shape), ux, uz, 1.0 if Rm is None else Rm

        for x, z in pos.values():
            ok[:, j] &= (x > 0.4) & (x < 1.8) & (np.abs(z) < 0.7)
        B0 = at(y0)[1]
        St, Sc, Jt, Jc = [], [], 0, 0
        for i, (yy, ww) in enumerate(segs):
            st = sc = 0
            for a, w in zip(yy, ww):
                x, By, ux, uz, Rm = at(a)
                st = st + w * np.sqrt(ux**2 + uz**2 + x**2)
                sc = sc + w * np.sqrt(ux**2 + uz**2 + Rm**2)
                if i in (1, 2):
                    Jt = Jt + w * x * B0 / By / dys
                    Jc = Jc + w * Rm * B0 / By / dys
            St.append(st)
            Sc.append(sc)
        fac = np.ones(2 * r + 1)
        fac[0] = fac[-1] = 0.5
        vals = [at(a) for a in trap]
        P["Jt"][:, j], P["Jc"][:, j] = Jt, Jc
        P["Jtt"][:, j] = sum(c * v[0] * B0 / v[1] for c, v in zip(fac, vals)) / (2 * r)
        P["Jct"][:, j] = sum(c * v[4] * B0 / v[1] for c, v in zip(fac, vals)) / (2 * r)
        P["By_cell_ylow"][:, j], P["By"][:, j], P["By_cell_yhigh"][:, j] = vals[0][1], B0, vals[-1][1]
        for k in range(3):
            Lt[k][:, j] = St[k] + St[k + 1]
            Lc[k][:, j] = Sc[k] + Sc[k + 1]
        m.interesting(np.ptp([v[1] for v in vals]) > 1e-3 or np.ptp([v[0] for v in vals]) > 1e-3)

    for k in ("By_cell_ylow", "By", "By_cell_yhigh"):
        m.close(maps[k][ok], P[k][ok], k, rtol=1e-6)
    m.saw("cells", np.sum(ok))
    m.saw("lines", 2 * R.size)
    if not slab:
        xx, xz, zz, _ = reference(g)
        Jp = np.sqrt(xx * zz - xz**2)
        # per index: the metric has its own dx and dz, checked in C12
        dx, dz = np.empty(R.shape), np.empty(R.shape)
        for j in range(ny):
            t = grid.getPoloidalGrid(j)[0].metric()
            dx[:, j], dz[:, j] = t["dx"], t["dz"]
        got = maps["J"] * dx * dz / Jp
        # the metric of annuli is good to 3e-4
        base = 2e-5 if case["kind"] == "rect" else 3e-4
        eL = {1: 3e-2, 2: 3e-3}.get(r, 1e-4)
        posts = ("_cell_ylow", "", "_cell_yhigh")

        def fits(J, Jtrap, L, k=1):
            if case["uneven"]:
                J = Jtrap = got  # no statement
            e = np.abs(got - J) - k * (base * np.abs(J) + 1.5 * np.abs(Jtrap - J))
            el = [np.abs(maps["Ly" + p] / L[i] - 1) - k * eL for i, p in enumerate(posts)]
            return np.all(e[ok] <= 0) and all(np.all(a[ok] <= 0) for a in el)

        right = fits(P["Jc"], P["Jct"], Lc)
        if torus or right:
            for i, p in enumerate(posts):
                m.close((maps["Ly" + p] / Lc[i])[ok], np.ones(R.shape)[ok], f"Ly{p} at refinement {r}", rtol=eL)
            if case["uneven"]:
                m.saw("cells between uneven planes", np.sum(ok))
                P["Jc"] = P["Jct"] = got
            e = np.abs(got - P["Jc"]) / (base * np.abs(P["Jc"]) + 1.5 * np.abs(P["Jct"] - P["Jc"]))
            m.close(e[ok], 0 * e[ok], "J", rtol=0, atol=1.0)
        elif fits(P["Jt"], P["Jtt"], Lt, 10):
            m.known_finding("not-toroidal", "J and Ly of " + spec["type"])
        else:
            m.fail("J or Ly neither right nor that of a toroidal field", field=spec["type"])
    else:
        m.check("J" not in maps and "Ly" not in maps, "no J and Ly for slabs")

    # -- chunks
    for n in {int(rng.integers(1, nx)), nx, nx + int(rng.integers(1, 5))}:
        other = zb.make_maps(grid, f, nslice=1, n_chunks=n, **kw)
        m.check(set(other) == set(maps), "same entries for any n_chunks")
        for k in maps:
            if isinstance(maps[k], np.ndarray):
                tol = dict(rtol=1e-5, atol=1e-6) if k.startswith(("By", "J", "Ly")) else dict(rtol=0, atol=0)
                m.close(other[k], maps[k], f"independent of n_chunks: {k}", **tol)
        m.saw("chunkings")
