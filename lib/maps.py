"""Synthetic FCI map dictionaries and a reference for the parallel operators"""
import numpy as np


def random_maps(rng, nsub=None, fallback=False, size=None, real=None, mixed=None):
    mxg = int(rng.choice([0, 1, 2, 2, 3]))
    nev = int(rng.choice([1, 2, 3, 4, 5, 7]))
    nx = nev + 2 * mxg
    ny = int(rng.choice([1, 2, 3, 4]))
    nz = int(rng.choice([1, 2, 3, 4, 6, 9]))
    big = rng.random()
    if big < 0.08:
        nx, nz = int(rng.integers(9, 26)) + 2 * mxg, min(nz, 3)
        ny = min(ny, 2)
    elif big < 0.2:
        ny, nz = int(rng.integers(5, 25)), min(nz, 3)
        nx = min(nx, 2 * mxg + 3)
    elif big < 0.28:
        nz, ny = int(rng.integers(10, 41)), min(ny, 2)
        nx = min(nx, 2 * mxg + 3)
    nsub = int(rng.choice([1, 4, 9, 16])) if nsub is None else nsub
    if rng.random() < 0.5 or nsub == 1:
        n = int(round(np.sqrt(nsub)))
        w1 = 0.5 * np.polynomial.legendre.leggauss(n)[1]
        w = np.outer(w1, w1).ravel()
    else:
        w = rng.uniform(0.2, 1, nsub)
        if rng.random() < 0.4:
            # a few samples have nearly all of the weight
            w = 10.0 ** rng.uniform(-6, 0, nsub)
    w = w / np.sum(w)
    maps = dict(R=rng.uniform(1, 2, (nx, ny, nz)), Z=rng.uniform(-1, 1, (nx, ny, nz)), MXG=mxg, MYG=1)
    style = ["inside", "mixed", "outside", "wild"][int(rng.choice([0, 1, 1, 1, 2, 3]))] if mixed is None else mixed
    for d in ("forward", "backward"):
        shape = (nx, ny, nz, nsub)
        x = rng.uniform(mxg, nx - mxg - 1, shape)
        exact = rng.random(shape) < 0.15
        x[exact] = np.round(x[exact])
        # very close to a surface, but not on it
        almost = rng.random(shape) < 0.15
        x[almost] = np.clip(np.round(x[almost]) + 10.0 ** rng.uniform(-9, -1, int(np.sum(almost))) * rng.choice([-1, 1], int(np.sum(almost))), mxg, nx - mxg - 1)
        edge = rng.random(shape) < 0.1
        x[edge] = rng.choice([mxg, nx - mxg - 1], int(np.sum(edge)))
        pout = dict(inside=0.0, mixed=0.3, outside=1.0, wild=0.5)[style]
        # some cells entirely out
        out = rng.random(shape) < pout
        whole = rng.random(shape[:3]) < (0.3 if style in ("mixed", "wild") else 0)
        out |= whole[..., None]
        if style == "mixed" and nsub > 1:
            # cells of which only one sample leaves or only one stays, often the lightest one
            single = rng.random(shape[:3])
            pick = np.where(rng.random(shape[:3]) < 0.6, int(np.argmin(w)), rng.integers(nsub, size=shape[:3]))
            one = np.arange(nsub) == pick[..., None]
            out = np.where((single < 0.2)[..., None], one, np.where((single > 0.85)[..., None], ~one, out))
        marks = np.where(rng.random(shape) < 0.5, -1.0, float(nx))
        near = np.where(rng.random(shape) < 0.5, mxg - rng.uniform(1e-6, 0.4, shape), nx - mxg - 1 + rng.uniform(1e-6, 0.4, shape))
        x = np.where(out, np.where(rng.random(shape) < 0.6, marks, near), x)
        z = rng.uniform(0, nz, shape)
        far = rng.random(shape) < 0.3
        z[far] = rng.uniform(-2.5 * nz, 3.5 * nz, int(np.sum(far)))
        exact = rng.random(shape) < 0.1
        z[exact] = np.round(z[exact])
        almost = rng.random(shape) < 0.1
        z[almost] = np.round(z[almost]) + 10.0 ** rng.uniform(-9, -1, int(np.sum(almost))) * rng.choice([-1, 1], int(np.sum(almost)))
        if nsub == 1:
            xc, zc = x[..., 0].copy(), z[..., 0].copy()
        else:
            # the line through the centre
            i = rng.integers(nsub, size=shape[:3])
            xc = np.take_along_axis(x, i[..., None], -1)[..., 0]
            zc = np.take_along_axis(z, i[..., None], -1)[..., 0]
        maps[d + "_xt_prime"] = xc
        maps[d + "_zt_prime"] = zc
        maps[d + "_R"] = rng.uniform(1, 2, (nx, ny, nz))
        if not (fallback and nsub == 1):
            maps[d + "_xt_primes"] = x
            maps[d + "_zt_primes"] = z
    if not (fallback and nsub == 1 and rng.random() < 0.5):
        maps["subcell_weights"] = w
    return maps


def hits(x, nx, mxg):
    return (x < mxg) | (x > nx - mxg - 1)


def samples(maps, d):
    """x, z [nx,ny,nz,s], weights"""
    s = "s" if d + "_xt_primes" in maps else ""
    x, z = maps[d + "_xt_prime" + s], maps[d + "_zt_prime" + s]
    if x.ndim == 3:
        x, z = x[..., None], z[..., None]
    return x, z, np.asarray(maps.get("subcell_weights", np.ones(1)), dtype=float)


def interpolate(f, x, z, mxg):
    """Bicubic Catmull-Rom interpolation of f[nx, nz] at (x, z); periodic in z, x clamped to the evolving cells"""
    nx, nz = f.shape
    i, k = np.floor(x).astype(int), np.floor(z).astype(int)
    u, v = x - i, z - k

    def cubic(a, b, c, d, t):
        m0, m1 = 0.5 * (c - a), 0.5 * (d - b)
        return (
            (2 * t**3 - 3 * t**2 + 1) * b + (t**3 - 2 * t**2 + t) * m0 + (-2 * t**3 + 3 * t**2) * c + (t**3 - t**2) * m1
        )

    cols = []
    for o in (-1, 0, 1, 2):
        ii = np.clip(i + o, mxg, nx - mxg - 1)
        cols.append(cubic(*[f[ii, (k + q) % nz] for q in (-1, 0, 1, 2)], v))
    return cubic(*cols, u)
