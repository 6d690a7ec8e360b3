"""C07: cell and leg numbers"""
import numpy as np

from lib import fields, grids
from lib import maps as M
from lib.harness import rng_of
from checks.c05 import make_boundary

PROPERTY = "C07"
LEVEL = "exploration"
REPEAT = 9
TECHNIQUE = "runtime monitoring: conservation and bijection checks on the numbering of every cell and leg"
RULE = (
    "Synthetic map dictionaries (guard widths 0 to 3, 1 to 7 evolving surfaces, 1 to 4 planes, 1 to 9 points in z, 1, 4 or 9 samples with even or uneven weights, "
    "all patterns of samples leaving, positions exactly on cell and domain edges, markers, with and without sub-cell arrays) and maps made by make_maps. "
    "Numbering, leg existence and leg weights of every cell are compared with counting. Non-trivial: both interior and boundary legs."
)
ASSUMPTIONS = ["a sample leaves when its x index is in the guard region, i.e. below MXG or above nx - MXG - 1"]


def cases(tier, rng):
    out = []
    for i in range(260 if tier == "quick" else 3000):
        out.append(dict(kind="synthetic", fallback=i % 5 == 0))
    for i in range(16 if tier == "quick" else 100):
        out.append(dict(kind="traced", n=[1, 2, 3][i % 3]))
    return out


def cost(c):
    return c.get("n", 0)


def make(case, rng, m):
    if case["kind"] == "synthetic":
        return M.random_maps(rng, fallback=case.get("fallback", False), nsub=1 if case.get("fallback") else None)
    import zoidberg as zb

    g = grids.random_grid(rng, ny=int(rng.integers(1, 4)), nx=8)
    spec = fields.random_spec(rng, ["slab", "custom", "screw"], length=2 * g["Ly"] / len(g["y"]))
    bnd, _ = make_boundary(["none", "rect", "moving"][int(rng.integers(3))], rng)
    m.note("field", spec)
    return zb.make_maps(
        grids.grid_build(g),
        fields.build(spec, boundary=bnd),
        quiet=True,
        samples_per_dim=case["n"],
        n_chunks=1,
        refine_parallel_integral=1,
        MXG=int(rng.choice([1, 2])),
        nslice=int(rng.choice([1, 2])),
    )


def run(case, m):
    from zoidberg import weights

    rng = rng_of(case)
    maps = make(case, rng, m)
    keep = {k: np.array(v, copy=True) for k, v in maps.items()}
    op = weights.calculate_parallel_map_operators(maps)
    for k in keep:
        m.equal(maps[k], keep[k], f"maps unchanged: {k}")
    m.check(set(maps) == set(keep), "maps unchanged: keys")
    check_numbers(m, maps, op)
    cs = weights.assign_cell_space_numbers(maps)
    nx, ny, nz = maps["R"].shape
    m.equal((cs["N_cells"], cs["N_evolving"]), (op["total_cells"], (nx - 2 * int(maps["MXG"])) * ny * nz), "numbers of cells")
    m.equal(cs["cell_number"], op["cell_number"], "numbers of cells are the same everywhere")


def check_numbers(m, maps, op):
    nx, ny, nz = maps["R"].shape
    mxg = int(maps["MXG"])
    N = int(op["total_cells"])
    cn = np.asarray(op["cell_number"])
    ev = np.zeros((nx, ny, nz), bool)
    ev[mxg : nx - mxg] = True
    nev = int(np.sum(ev))
    bn = {}
    allnum = [cn.ravel()]
    for d in ("forward", "backward"):
        b = bn[d] = np.asarray(op[d + "_cell_number"])
        x, z, w = M.samples(maps, d)
        hit = M.hits(x, nx, mxg)
        want = np.any(hit, -1) & ev
        m.equal(b.shape, cn.shape, "shape of the boundary numbers", stop=True)
        m.equal(b >= 0, want, f"{d} boundary cells exist where a sample leaves")
        m.check(b[~want] == -1, "no boundary cell is -1")
        allnum.append(b[want])
        # legs
        nl = int(op[f"n_{d}_legs"])
        li, lb = np.asarray(op[d + "_leg_interior_number"]), np.asarray(op[d + "_leg_boundary_number"])
        lw = np.asarray(op[d + "_leg_weights"])
        has_i, has_b = np.any(~hit, -1) & ev, want
        m.equal(li >= 0, has_i, f"{d} interior legs exist where a sample stays")
        m.equal(lb >= 0, has_b, f"{d} boundary legs exist where a sample leaves")
        m.check(li[~has_i] == -1, "no leg is -1")
        m.check(lb[~has_b] == -1, "no leg is -1")
        num = np.concatenate([li[has_i], lb[has_b]])
        m.equal(np.sort(num), np.arange(nl), f"{d} legs are numbered 0..M-1", stop=True)
        m.equal(lw.shape, (nl,), "one weight per leg", stop=True)
        fi = np.sum(np.where(hit, 0, w), -1)
        m.close(lw[li[has_i]], fi[has_i], "weight of interior legs", rtol=1e-9, atol=1e-12)
        m.close(lw[lb[has_b]], 1 - fi[has_b], "weight of boundary legs", rtol=1e-9, atol=1e-12)
        tot = np.zeros((nx, ny, nz))
        tot[has_i] += lw[li[has_i]]
        tot[has_b] += lw[lb[has_b]]
        m.close(tot[ev], np.ones(nev), "weights of a cell sum to one", rtol=1e-9)
        m.saw("legs", nl)
        m.saw("split cells", np.sum(has_i & has_b))
        m.saw("patterns of leaving samples", len(np.unique(hit[ev].reshape(-1, hit.shape[-1]), axis=0)) if nev else 0)
        m.interesting(np.any(has_i) and np.any(has_b))
    allnum = np.concatenate(allnum)
    m.equal(np.sort(allnum), np.arange(N), "cells are numbered 0..N-1")
    m.equal(np.sort(cn[ev]), np.arange(nev), "evolving cells come first")
    m.saw("cells numbered", N)
