"""C17: grid files"""
import copy

import numpy as np

from lib import fields, grids
from lib.harness import rng_of
from checks.c12 import check_metric, reference

PROPERTY = "C17"
LEVEL = "exploration"
REPEAT = 3
TECHNIQUE = "runtime monitoring: every variable of the written file read back with netCDF4 and compared with maps, grid and field formulas; one-shot, piecewise and reopened writing compared"
RULE = (
    "Random grids with evenly spaced planes (rectangular and annular, 1 to 5 planes, periodic or not) x fields x 0 to 3 parallel slices x sub-cell samples x old/new names x 2D/3D metrics, "
    "with and without parallel operators added to the maps, written by write_maps and piece by piece by MapWriter in random order. Non-trivial: always; rejected non-finite data counted as rejections."
)
ASSUMPTIONS = [
    "planes are evenly spaced in y (the writer rejects other grids)",
    "metrics of parallel slices whose plane does not exist (non-periodic ends) are not judged",
    "annuli have at least 24 points round; poloidal coefficients are compared to 3e-4 (1e-3 in slices)",
]
BOX = ((0.6, 1.6), (-0.5, 0.5))
OLD = {
    "g_yy": "g_22", "gyy": "g22", "gxx": "g11", "gxz": "g13", "gzz": "g33", "g_xx": "g_11", "g_xz": "g_13", "g_zz": "g_33",
}  # fmt: skip
METRIC = ["dx", "dy", "dz", "gxx", "gyy", "gzz", "gxz", "g_xx", "g_yy", "g_zz", "g_xz", "B", "Bxy", "pressure"]


def cases(tier, rng):
    out = []
    n = 72 if tier == "quick" else 700
    for i in range(n):
        out.append(
            dict(
                kind=["rect", "ann", "ann"][i % 3],
                field=["custom", "ellipse", "slab", "screw", "straight", "custom", "curved"][i % 7],
                new=bool(rng.random() < 0.5),
                flat=bool(rng.random() < 0.4),
                nslice=int(rng.choice([1, 1, 2, 3, 0])),
                samples=int(rng.choice([1, 1, 2])),
                ops=bool(rng.random() < 0.3),
                ny=[1, 2, 3, 4, 5][i // 3 % 5],
            )
        )
    return out


def read(fn):
    import netCDF4

    with netCDF4.Dataset(fn) as f:
        f.set_auto_mask(False)
        v = {k: np.array(x[...]) for k, x in f.variables.items()}
        d = {k: tuple(x.dimensions) for k, x in f.variables.items()}
        a = {k: f.getncattr(k) for k in f.ncattrs()}
    return v, d, a


def slice_name(k, o):
    return ("forward" if o > 0 else "backward") + "_" + k + ("" if abs(o) == 1 else f"_{abs(o)}")


def diffmat(n, w=7):
    """d/dx of a function of index by interpolation with up to 7 points"""
    D = np.zeros((n, n))
    w = min(w, n)
    for i in range(n):
        lo = min(max(i - w // 2, 0), n - w)
        x = np.arange(lo, lo + w) - i
        V = np.vander(x, w, increasing=True).T.astype(float)
        b = np.zeros(w)
        b[1] = 1
        D[i, lo : lo + w] = np.linalg.solve(V, b)
    return D


def dz_fft(f):
    n = f.shape[-1]
    k = 2 * np.pi * np.fft.fftfreq(n)
    if n % 2 == 0:
        k[n // 2] = 0
    return np.fft.ifft(1j * k * np.fft.fft(f, axis=-1), axis=-1).real


def check_file(m, fn, g, spec, maps, case, grid_id=None):
    v, dims, attrs = read(fn)
    nx, ny, nz = maps["R"].shape
    nm = (lambda k: k) if case["new"] else (lambda k: OLD.get(k, k))

    def var(k):
        if k not in v:
            m.fail(f"{k} missing in the file", stop=True)
        return v[k]

    # -- maps
    for k, val in maps.items():
        if isinstance(val, (np.ndarray, int, float, np.generic)):
            got = var(k)
            m.check(got.shape == np.shape(val), f"shape of {k}", got=got.shape, want=np.shape(val)) and m.equal(
                got, val, f"map {k} as given"
            )
            m.saw("map arrays read back")
    R, Z = grids.coords(g)
    m.close(var("R"), R, "R of the grid", rtol=1e-12)
    m.close(var("Z"), Z, "Z of the grid", rtol=1e-12)
    m.close(var("Rxy"), R, "Rxy", rtol=1e-12)
    for k, want in dict(nx=nx, ny=ny, nz=nz, ixseps1=nx + 1, ixseps2=nx + 1).items():
        m.check(var(k).ndim == 0 and int(var(k)) == want, f"size {k}", got=var(k), want=want)
    for k in ("id", "grid_id", "title", "software_name", "software_version"):
        m.check(k in attrs, f"file attribute {k}")
    m.check(attrs.get("id") == attrs.get("grid_id"), "id and grid_id agree")
    m.check(dims["R"] == ("x", "y", "z"), "dimensions of R", got=dims["R"])

    # -- metric and field
    comp = fields.components(spec)
    press = fields.pressure_ref(spec)

    def field_at(R, Z, ys):
        Bx, By, Bz, Rm, pr = [np.empty(R.shape) for _ in range(5)]
        for j in range(R.shape[1]):
            c = comp(R[:, j], Z[:, j], ys[j])
            Bx[:, j], By[:, j], Bz[:, j] = c[0], c[1], c[2]
            Rm[:, j] = 1.0 if c[3] is None else c[3]
            pr[:, j] = press(R[:, j], Z[:, j], ys[j])
        B = np.sqrt(Bx**2 + By**2 + Bz**2)
        return B, (Rm * B / By) ** 2, pr

    y = np.array(g["y"])
    B, gy, pr = field_at(R, Z, y)
    flat = case["flat"]
    if not flat:
        t = {k: var(nm(k)) for k in METRIC}
        for k, val in t.items():
            m.check(val.shape == (nx, ny, nz), f"3D {k}", got=val.shape)
        check_metric(m, g, t, "file ")
    else:
        t = {}
        for k in METRIC:
            val = var(nm(k))
            want = () if k == "dz" else (nx, ny)
            if not m.check(val.shape == want, f"2D {k}", got=val.shape):
                return v, attrs
            t[k] = np.broadcast_to(val if k == "dz" else val[:, :, None], (nx, ny, 1))
        # the z = 0 slice; dz of the first cell
        xx, xz, zz, dy = (a if a.ndim == 1 else a[:, :, :1] for a in reference(g))
        rtol = 1e-9 if case["kind"] == "rect" else 3e-4
        one = np.ones(xx.shape)
        m.close(t["g_xx"] * t["dx"] ** 2 / xx, one, "2D g_xx", rtol=rtol)
        m.close(t["g_xx"] * t["gxx"] + t["g_xz"] * t["gxz"], one, "2D inverse", rtol=1e-8)
        m.close(t["g_zz"] * t["gzz"] + t["g_xz"] * t["gxz"], one, "2D inverse", rtol=1e-8)
        if case["kind"] == "ann" or len(g["planes"]) == 1:
            # dz is the same in all cells, unless planes differ
            m.close(t["g_zz"] * t["dz"] ** 2 / zz, one, "2D g_zz", rtol=rtol)
        m.close(t["dy"], np.broadcast_to(dy[None, :, None], xx.shape), "2D dy", rtol=1e-9)
    n1 = 1 if flat else nz
    m.close(t["B"], B[:, :, :n1], "B", rtol=1e-8)
    m.close(t["Bxy"], B[:, :, :n1], "Bxy", rtol=1e-8)
    m.close(t["pressure"], pr[:, :, :n1], "pressure", rtol=1e-9)
    m.close(t["gyy"] * gy[:, :, :n1], np.ones((nx, ny, n1)), "gyy", rtol=1e-8)
    DY = reference(g)[3][None, :, None]
    for post in ("", "_cell_ylow", "_cell_yhigh"):
        got = var(nm("g_yy") + post)
        got = got[:, :, None] if flat else got
        if "Ly" in maps:
            want = (maps["Ly" + post] / DY) ** 2
        else:
            want = gy
        m.close(got / want[:, :, :n1], np.ones((nx, ny, n1)), "g_yy" + post, rtol=1e-8)
    if "Ly" in maps:
        for k, want in (("g_yy_correct", (maps["Ly"] / DY) ** 2), ("g_yy_old", gy)):
            # which of the names is also renamed is not important
            got = [v[n] for n in (k, nm("g_yy") + k[4:]) if n in v]
            if got:
                got = got[0][:, :, None] if flat else got[0]
                m.close(got / want[:, :, :n1], np.ones((nx, ny, n1)), k, rtol=1e-8)
    for k, c in (spec.get("attributes") or {}).items():
        want = c[0] + c[1] * R + c[2] * Z + c[3] * y[None, :, None]
        m.close(var(k), want, "field attribute", rtol=1e-9)
        m.saw("attributes")

    # -- parallel slices
    D = diffmat(nx)
    for o in [*range(1, case["nslice"] + 1), *range(-case["nslice"], 0)]:
        P = [maps[slice_name(k, o)] for k in "RZ"]
        have = [j for j in range(ny) if g["periodic"] or 0 <= j + o < ny]
        ys = [grids.plane_at(g, j + o)[1] for j in have]
        s = {k: var(slice_name(nm(k), o)) for k in METRIC}
        for k, val in s.items():
            m.check(val.shape == (nx, ny, nz), f"slice {k}", got=val.shape)
            m.check(np.isfinite(val), f"finite slice {k}")
        if not have:
            continue
        B, gy, pr = field_at(P[0][:, have], P[1][:, have], ys)
        m.close(s["B"][:, have], B, "slice B", rtol=1e-8)
        m.close(s["Bxy"][:, have], B, "slice Bxy", rtol=1e-8)
        m.close(s["pressure"][:, have], pr, "slice pressure", rtol=1e-8)
        m.close(s["g_yy"][:, have] / gy, np.ones(gy.shape), "slice g_yy", rtol=1e-8)
        m.close(s["gyy"][:, have] * gy, np.ones(gy.shape), "slice gyy", rtol=1e-8)
        dyref = g["Ly"] / ny  # even planes
        m.close(s["dy"][:, have], np.full(gy.shape, dyref), "slice dy", rtol=1e-8)
        m.saw("slices", len(have))
        one = s["g_xx"] * s["gxx"] + s["g_xz"] * s["gxz"]
        two = s["g_zz"] * s["gzz"] + s["g_xz"] * s["gxz"]
        m.close(one, np.ones(one.shape), "slice inverse xx", rtol=1e-8)
        m.close(two, np.ones(one.shape), "slice inverse zz", rtol=1e-8)
        if case["kind"] == "ann":
            Rx, Zx = (np.einsum("ab,byz->ayz", D, a) for a in P)
            Rz, Zz = (dz_fft(a) for a in P)
            xx, xz, zz = Rx**2 + Zx**2, Rx * Rz + Zx * Zz, Rz**2 + Zz**2
            q = np.sqrt(xx * zz)
            one = np.ones(xx.shape)
            m.close(s["g_xx"] * s["dx"] ** 2 / xx, one, "slice g_xx", rtol=1e-3)
            m.close(s["g_zz"] * s["dz"] ** 2 / zz, one, "slice g_zz", rtol=1e-3)
            m.close(s["g_xz"] * s["dx"] * s["dz"] / q, xz / q, "slice g_xz", rtol=0, atol=1e-3)
        else:
            Dz = diffmat(nz)
            Rx, Zx = (np.einsum("ab,byz->ayz", D, a) for a in P)
            Rz, Zz = (np.einsum("ab,xyb->xya", Dz, a) for a in P)
            xx, xz, zz = Rx**2 + Zx**2, Rx * Rz + Zx * Zz, Rz**2 + Zz**2
            q = np.sqrt(xx * zz)
            one = np.ones(xx.shape)
            # how well do these points resolve the derivatives?
            D4, Dz4 = diffmat(nx, 4), diffmat(nz, 4)
            e = sum(
                np.max(np.abs(np.einsum("ab,byz->ayz", D - D4, a)) / np.sqrt(xx))
                + np.max(np.abs(np.einsum("ab,xyb->xya", Dz - Dz4, a)) / np.sqrt(zz))
                for a in P
            )
            tol = 1e-3 + 3 * float(e)
            m.note("resolution", tol)
            if tol > 0.1:
                m.saw("unresolved slices")
                continue
            for k, got in dict(g_xx=s["g_xx"] * s["dx"] ** 2 / xx, g_zz=s["g_zz"] * s["dz"] ** 2 / zz).items():
                m.close(got, one, "rectangular slice " + k, rtol=tol)
            m.close(s["g_xz"] * s["dx"] * s["dz"] / q, xz / q, "rectangular slice g_xz", rtol=0, atol=tol)
    return v, attrs


def run(case, m):
    import zoidberg as zb
    from zoidberg import weights
    from zoidberg.zoidberg import MapWriter

    rng = rng_of(case)
    g = grids.random_grid(
        rng, kind=case["kind"], ny=case["ny"], uniform=True, nx=int(rng.integers(8, 13)), nz=None if case["kind"] == "ann" else int(rng.integers(6, 15))
    )
    spec = fields.random_spec(rng, [case["field"]], *BOX, length=2.0)
    if case["field"] == "custom":
        spec["pressure"] = [float(v) for v in rng.uniform(0.5, 2, 3)]
        spec["attributes"] = {f"att{i}": [float(v) for v in rng.uniform(-1, 1, 4)] for i in range(int(rng.integers(0, 3)))}
    m.note("grid", g)
    m.note("field", spec)
    grid = grids.grid_build(g)
    f = fields.build(spec)
    kw = {} if case["samples"] == 1 else dict(samples_per_dim=case["samples"])
    maps = zb.make_maps(grid, f, nslice=case["nslice"], quiet=True, refine_parallel_integral=2, **kw)
    if case["ops"] and case["nslice"]:
        maps = weights.modify_maps(maps)
    extra = {"extra3d": rng.normal(size=grid.shape), "extra0": 3}
    before = copy.deepcopy(maps)

    # -- one call
    zb.write_maps(grid, f, maps, gridfile="one.nc", new_names=case["new"], metric2d=case["flat"], quiet=True)
    v1, a1 = check_file(m, "one.nc", g, spec, before, case)
    m.saw("files")
    for k in before:
        m.equal(maps[k], before[k], "maps left as they were: " + k) if isinstance(before[k], np.ndarray) else None

    # -- piece by piece, the extra variables at a random place, all into one
    #    file or closed and opened again to add something
    when = int(rng.integers(3))
    grid2 = grids.grid_build(g) if rng.random() < 0.5 else grid
    with MapWriter("two.nc", new_names=case["new"], metric2d=case["flat"], quiet=True) as mw:
        if when == 0:
            mw.write_dict(dict(extra))
        if rng.random() < 0.5:
            mw.add_grid_field(grid2, f)
        else:
            mw.add_field(f)
            mw.add_grid(grid2)
        if when == 1:
            mw.write_dict(dict(extra))
        mw.add_maps(copy.deepcopy(before))
    if when == 2:
        with MapWriter("two.nc", create=False, quiet=True) as mw:
            mw.write_dict(dict(extra))
    v2, _, a2 = read("two.nc")
    m.saw("files")
    want = set(v1) | set(extra)
    m.check(set(v2) == want, "piecewise file has the same variables", diff=sorted(set(v2) ^ want)[:5])
    for k in sorted(set(v1) & set(v2)):
        m.equal(v2[k], v1[k], "piecewise file has the same " + k)
    for k, val in extra.items():
        if k in v2:
            m.equal(v2[k], val, "extra data")
    m.check(a1.get("id") != a2.get("id"), "ids differ")
    for k in set(a1) - {"id", "grid_id"}:
        m.check(a2.get(k) == a1[k], "same file attribute " + k)

    # -- the same again in the same process and over an existing file
    zb.write_maps(grid, f, maps, gridfile="one.nc", new_names=case["new"], metric2d=case["flat"], quiet=True)
    v3, _, a3 = read("one.nc")
    m.check(set(v3) == set(v1), "overwritten file has the same variables")
    for k in sorted(set(v1) & set(v3)):
        m.equal(v3[k], v1[k], "overwritten file has the same " + k)
    m.check(a3.get("id") not in (a1.get("id"), a2.get("id")), "ids differ")

    # -- the grid alone; the file is complete once the writer is closed
    mw = MapWriter("grid.nc", quiet=True)
    m.raises(AssertionError, lambda: mw.write_dict(dict(a=1.0)), "writing to a file that is not open")
    opened = mw.open()
    m.check(opened is mw, "open returns the writer")
    if rng.random() < 0.5:
        m.raises(AssertionError, lambda: mw.add_maps(copy.deepcopy(before)), "maps before the grid and the field")
        mw.add_field(f)
        m.raises(AssertionError, lambda: mw.add_maps(copy.deepcopy(before)), "maps before the grid")
    mw.add_grid(grid2)
    mw.__exit__(None, None, None)
    v4, _, _ = read("grid.nc")
    R, Z = grids.coords(g)
    for k, want in dict(R=R, Z=Z).items():
        if m.check(k in v4, f"{k} of the grid alone"):
            m.close(v4[k], want, f"{k} of the grid alone", rtol=1e-12)
    m.raises(AssertionError, lambda: mw.write_dict(dict(a=1.0)), "writing to a file that is closed")

    # -- non finite data
    bad = copy.deepcopy(before)
    k = [k for k in sorted(bad) if isinstance(bad[k], np.ndarray) and bad[k].dtype.kind == "f" and bad[k].size > 1]
    k = k[int(rng.integers(len(k)))]
    i = tuple(int(rng.integers(n)) for n in bad[k].shape)
    bad[k][i] = [np.nan, np.inf, -np.inf][int(rng.integers(3))]
    m.raises(
        (AssertionError, ValueError),
        lambda: zb.write_maps(grid, f, bad, gridfile="bad.nc", new_names=case["new"], metric2d=case["flat"], quiet=True),
        f"non finite {k}",
    )
    m.interesting()
