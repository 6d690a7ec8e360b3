"""C09: modify_maps"""
import copy

import numpy as np

from lib import maps as M
from lib.harness import rng_of
from checks.c07 import check_numbers, make
from checks.c08 import check_operator

PROPERTY = "C09"
LEVEL = "exploration"
REPEAT = 4
TECHNIQUE = "runtime monitoring: state of the maps before and after compared entry by entry, and with independently filtered maps"
RULE = (
    "The map dictionaries of C07, with and without partial boundaries. The result is compared with the maps filtered independently (numbering, legs and operator rows as in "
    "C07 and C08), all other entries with a copy taken before, and a second run with the first. Non-trivial: some cell has samples both leaving and staying."
)
ASSUMPTIONS = ["without partial boundaries the centre line decides and replaces the samples that contradict it, as the code documents"]


def cases(tier, rng):
    out = []
    for i in range(240 if tier == "quick" else 2500):
        out.append(dict(kind="synthetic", partial=bool(i % 2)))
    for i in range(16 if tier == "quick" else 100):
        out.append(dict(kind="traced", n=[2, 3, 1][i % 3], partial=bool(i % 2)))
    for i in range(40 if tier == "quick" else 400):
        out.append(dict(kind="refused", why=["missing", "number", "sum", "2d", "map"][i % 5], partial=bool(i // 5 % 2)))
    return out


def run(case, m):
    from zoidberg import weights

    rng = rng_of(case)
    if case["kind"] == "refused":
        maps = make(dict(case, kind="synthetic"), rng, m)
        n = maps["forward_xt_primes"].shape[-1] if "forward_xt_primes" in maps else 1
        w = np.asarray(maps.get("subcell_weights", np.ones(n) / n), dtype=float)
        why = case["why"]
        if why == "missing":
            if n == 1:
                return
            maps.pop("subcell_weights", None)
        elif why == "number":
            maps["subcell_weights"] = np.append(w, 0.0) if n == 1 or rng.random() < 0.5 else w[:-1] / np.sum(w[:-1])
        elif why == "sum":
            maps["subcell_weights"] = w * float(rng.choice([0.5, 1.001, 1 + 1e-6, 2.0, 0.0]))
        elif why == "2d":
            maps["subcell_weights"] = w[None, :]
        else:
            d = str(rng.choice(["forward", "backward"]))
            for k in (d + "_xt_primes", d + "_xt_prime"):
                maps.pop(k, None)
        m.note("refused", why)
        m.raises((ValueError, KeyError), lambda: weights.calculate_parallel_map_operators(maps), f"inconsistent maps are refused: {why}")
        m.saw("inconsistent maps")
        return
    maps = make(case, rng, m)
    if "subcell_weights" not in maps:
        maps["subcell_weights"] = np.ones(1)
    nx, ny, nz = maps["R"].shape
    mxg = int(maps["MXG"])
    if "forward_xt_primes" in maps and rng.random() < 0.4:
        # centres which leave although no sample does, and the other way round
        for d in ("forward", "backward"):
            for _ in range(int(rng.integers(1, 6))):
                c = int(rng.integers(mxg, nx - mxg)), int(rng.integers(ny)), int(rng.integers(nz))
                if rng.random() < 0.6:
                    maps[d + "_xt_prime"][c] = -1.0 if rng.random() < 0.5 else float(nx)
                else:
                    maps[d + "_xt_prime"][c] = rng.uniform(mxg, nx - mxg - 1)
                    maps[d + "_zt_prime"][c] = rng.uniform(0, nz)
    before = copy.deepcopy(maps)
    again = copy.deepcopy(maps)
    kw = {} if case["partial"] and rng.random() < 0.5 else {"partial_boundaries": case["partial"]}
    res = weights.modify_maps(maps, **kw)
    # what the samples must have become
    ref = copy.deepcopy(before)
    split = False
    for d in ("forward", "backward"):
        x, z = ref[d + "_xt_primes"], ref[d + "_zt_primes"]
        hit = M.hits(x, nx, mxg)
        split = split or np.any(np.any(hit, -1) & np.any(~hit, -1))
        xc, zc = before[d + "_xt_prime"], before[d + "_zt_prime"]
        hc = M.hits(xc, nx, mxg)
        flag = M.hits(np.asarray(res[d + "_xt_prime"]), nx, mxg)
        if case["partial"]:
            m.equal(flag, np.any(hit, -1) | hc, f"{d}: leaving cells are flagged")
            same = ~np.any(hit, -1)
            m.equal(res[d + "_xt_prime"][same], xc[same], f"{d}: centre index of other cells kept")
            m.check(res[d + "_xt_prime"][~same] == -1, f"{d}: flag is -1")
        else:
            m.equal(flag, hc, f"{d}: centre decides")
            m.equal(res[d + "_xt_prime"], xc, f"{d}: centre index kept")
            ref[d + "_xt_primes"] = np.where(hc[..., None], -1.0, np.where(hit, xc[..., None], x))
            ref[d + "_zt_primes"] = np.where(~hc[..., None] & hit, zc[..., None], z)
            ev = slice(mxg, nx - mxg)
            i, b = res[d + "_leg_interior_number"][ev] >= 0, res[d + "_leg_boundary_number"][ev] >= 0
            m.equal(b, hc[ev], f"{d}: boundary leg exactly where the centre leaves")
            m.equal(i, ~hc[ev], f"{d}: interior leg exactly where the centre stays")
        m.equal(res[d + "_zt_prime"], zc, f"{d}: centre z index kept")
    check_numbers(m, ref, res)
    check_operator(m, ref, res, rng)
    # the rest is as it was
    gone = {f"{d}_{c}t_primes" for d in ("forward", "backward") for c in "xz"} | {"subcell_weights"}
    m.check(not gone & set(res), "sub-cell maps of the adjacent planes are taken out")
    for k, v in before.items():
        if k in gone or k in ("forward_xt_prime", "backward_xt_prime"):
            continue
        m.check(k in res, f"entry kept: {k}")
        if k in res:
            m.equal(res[k], v, f"entry unchanged: {k}")
    # and the same again
    res2 = weights.modify_maps(again, **kw)
    m.check(set(res2) == set(res), "same entries again")
    for k in res:
        m.equal(res2[k], res[k], f"same again: {k}")
    m.interesting(split)
