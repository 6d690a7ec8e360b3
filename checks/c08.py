"""C08: parallel interpolation operators"""
import numpy as np

from lib import maps as M
from lib.harness import rng_of
from checks.c07 import make

PROPERTY = "C08"
LEVEL = "exploration"
REPEAT = 9
TECHNIQUE = "runtime monitoring: every operator row applied to random, constant and linear fields and compared with an independent interpolation"
RULE = (
    "The map dictionaries of C07. The operator of each direction is applied to random fields (with huge values in all cells "
    "that must not be used), constants and linear fields; each row is compared with an independent Hermite bicubic interpolation of the adjacent plane. "
    "Non-trivial: the operator has interior rows."
)
ASSUMPTIONS = ["three random fields distinguish different rows"]


def cases(tier, rng):
    out = []
    for i in range(220 if tier == "quick" else 2500):
        out.append(dict(kind="synthetic", fallback=i % 5 == 0))
    for i in range(16 if tier == "quick" else 100):
        out.append(dict(kind="traced", n=[1, 2, 3][i % 3]))
    for i in range(20 if tier == "quick" else 200):
        out.append(dict(kind="linear"))
    return out


def run(case, m):
    from zoidberg import weights

    rng = rng_of(case)
    if case["kind"] == "linear":
        maps = linear_maps(rng)
    else:
        maps = make(case, rng, m)
    op = weights.calculate_parallel_map_operators(maps)
    check_operator(m, maps, op, rng)
    if case["kind"] == "linear":
        nx, ny, nz = maps["R"].shape
        a, b = rng.uniform(0.5, 2, 2)
        X = np.broadcast_to(np.arange(nx)[:, None, None], (nx, ny, nz))
        K = np.broadcast_to(np.arange(nz)[None, None, :], (nx, ny, nz))
        vec = np.zeros(int(op["total_cells"]))
        vec[op["cell_number"]] = a * X + b * K
        for d in ("forward", "backward"):
            got = apply(op, d, vec)
            x, z, w = M.samples(maps, d)
            li = op[d + "_leg_interior_number"]
            sel = li >= 0
            want = np.sum(w * (a * x + b * z), -1)[sel]
            m.close(got[li[sel]], want, "linear fields", rtol=1e-9, atol=1e-9)
            m.saw("rows reproducing linear fields", np.sum(sel))


def linear_maps(rng):
    mxg = int(rng.choice([1, 2]))
    nx, ny, nz, ns = 8 + 2 * mxg, int(rng.integers(1, 4)), 9, int(rng.choice([1, 4]))
    maps = dict(R=np.ones((nx, ny, nz)), MXG=mxg, subcell_weights=np.full(ns, 1 / ns))
    for d in ("forward", "backward"):
        maps[d + "_xt_primes"] = rng.uniform(mxg + 1, nx - mxg - 2.001, (nx, ny, nz, ns))
        maps[d + "_zt_primes"] = rng.uniform(1, nz - 3.001, (nx, ny, nz, ns))
    return maps


def apply(op, d, vec):
    rows, cols, w = op[d + "_rows"], op[d + "_columns"], op[d + "_weights"]
    n = len(rows) - 1
    r = np.repeat(np.arange(n), np.diff(rows))
    return np.bincount(r, weights=w * vec[cols], minlength=n)


def check_operator(m, maps, op, rng):
    nx, ny, nz = maps["R"].shape
    mxg = int(maps["MXG"])
    N = int(op["total_cells"])
    cn = np.asarray(op["cell_number"])
    for d, dy in (("forward", 1), ("backward", -1)):
        rows, cols, w = (np.asarray(op[d + k]) for k in ("_rows", "_columns", "_weights"))
        nl = int(op[f"n_{d}_legs"])
        m.check(np.issubdtype(rows.dtype, np.integer) and np.issubdtype(cols.dtype, np.integer), "integer indices")
        m.equal(rows.shape, (nl + 1,), "length of the row pointer", stop=True)
        m.check(rows[0] == 0 and np.all(np.diff(rows) >= 0), "row pointer increases from 0", stop=True)
        m.check(rows[-1] == len(cols) == len(w), "row pointer ends at the number of entries", stop=True)
        m.check(np.all((cols >= 0) & (cols < N)), "columns exist", stop=True)
        r = np.repeat(np.arange(nl), np.diff(rows))
        m.check(len(np.unique(r.astype(np.int64) * N + cols)) == len(cols), "no column twice in a row")
        m.close(np.bincount(r, weights=w, minlength=nl), np.ones(nl), "rows sum to one", rtol=1e-8)
        m.check(np.isfinite(w), "finite weights")
        # boundary rows
        lb, li = np.asarray(op[d + "_leg_boundary_number"]), np.asarray(op[d + "_leg_interior_number"])
        bn = np.asarray(op[d + "_cell_number"])
        sel = lb >= 0
        rb = lb[sel]
        m.equal(np.diff(rows)[rb], np.ones(len(rb)), "one entry in a boundary row", stop=True)
        m.equal(cols[rows[rb]], bn[sel], "column of a boundary row")
        m.close(w[rows[rb]], np.ones(len(rb)), "entry of a boundary row", rtol=1e-12)
        # interior rows
        x, z, sw = M.samples(maps, d)
        hit = M.hits(x, nx, mxg)
        sel = li >= 0
        ri = li[sel]
        inside = np.sum(np.where(hit, 0, sw), -1)
        for rep in range(3):
            vec = rng.normal(size=N) * 1e7
            f = rng.normal(size=(nx, ny, nz))
            vec[cn[mxg : nx - mxg]] = f[mxg : nx - mxg]
            want = np.zeros((nx, ny, nz))
            for j in range(ny):
                v = M.interpolate(f[:, (j + dy) % ny], np.where(hit, mxg, x)[:, j], z[:, j], mxg)
                want[:, j] = np.sum(np.where(hit[:, j], 0, sw * v), -1)
            with np.errstate(all="ignore"):
                want = want / inside
            m.close(apply(op, d, vec)[ri], want[sel], "interpolated values", rtol=1e-8, atol=1e-8, direction=d)
        m.saw("interior rows", len(ri))
        m.saw("boundary rows", len(rb))
        m.saw("matrix entries", len(w))
        m.interesting(len(ri) > 0)
