"""C26: upscaling fields along the maps"""
import numpy as np

from lib.harness import layout, rng_of

PROPERTY = "C26"
LEVEL = "exploration"
REPEAT = 6
TECHNIQUE = "runtime monitoring of upscaled fields on maps for which the straight-line interpolation is known in closed form (affine maps, fields linear in every plane)"
RULE = (
    "Random grid sizes, factors 1 to 64, affine forward maps that differ from plane to plane (shifts, shear and expansion), fields linear in x and z with "
    "different coefficients in every plane, given in grid order or transposed, and arbitrary fields at the original planes. Non-trivial: at least one intermediate point was compared."
)
ASSUMPTIONS = [
    "points within eight cells of the edges are judged only at the original planes (the spline and the hull of the points end there)",
]


def cases(tier, rng):
    n = 40 if tier == "quick" else 300
    return [dict(kind=["shift", "affine", "affine", "identity"][i % 4]) for i in range(n)]


def run(case, m):
    from zoidberg.zoidberg import upscale

    rng = rng_of(case)
    k = case["kind"]
    nx, ny, nz = int(rng.integers(24, 34)), int(rng.integers(1, 5)), int(rng.integers(24, 34))
    X, Y, Z = np.mgrid[0:nx, 0:ny, 0:nz].astype(float)
    A = np.zeros((ny, 2, 3))
    if k != "identity":
        A[:, :, 0] = rng.uniform(-1.5, 1.5, (ny, 2))
    if k == "affine":
        A[:, :, 1:] = rng.uniform(-0.04, 0.04, (ny, 2, 2))
    dx = A[:, 0, 0][None, :, None] + A[:, 0, 1][None, :, None] * (X - nx / 2) + A[:, 0, 2][None, :, None] * (Z - nz / 2)
    dz = A[:, 1, 0][None, :, None] + A[:, 1, 1][None, :, None] * (X - nx / 2) + A[:, 1, 2][None, :, None] * (Z - nz / 2)
    C = rng.uniform(-1, 1, (ny, 3)) * [5, 0.2, 0.2]

    def f(j, x, z):
        return C[j, 0] + C[j, 1] * x + C[j, 2] * z

    F = np.stack([f(j, X[:, j], Z[:, j]) for j in range(ny)], axis=1)
    maps = dict(forward_xt_prime=layout(rng, X + dx), forward_zt_prime=layout(rng, Z + dz))
    n = int(rng.integers(1, 8)) if rng.random() < 0.75 else int(rng.choice([49, 10, 12, 16, 25, 64, int(rng.integers(8, 60))]))
    kw = {} if n == 4 else {"upscale_factor": n}
    if rng.random() < 0.3:
        kw["quiet"] = bool(rng.integers(2))
    trans = nx != nz and rng.random() < 0.3
    got = upscale(layout(rng, F.T.copy()) if trans else layout(rng, F), maps, **kw)
    if not m.check(got.shape == (nx, n * ny, nz), "shape", got=got.shape, stop=True):
        return
    m.close(got[:, ::n], F, "original planes", rtol=0, atol=1e-6)
    e = 8
    x, z = X[e:-e, 0, e:-e], Z[e:-e, 0, e:-e]
    for j in range(ny):
        for i in range(1, n) if n < 8 else rng.choice(np.arange(1, n), 6, replace=False):
            t = i / n
            # the starting point of the line which is at x, z after the fraction t
            M = np.eye(2) + t * A[j, :, 1:]
            c = t * (A[j, :, 0] - A[j, :, 1] * nx / 2 - A[j, :, 2] * nz / 2)
            s = np.einsum("ij,j...->i...", np.linalg.inv(M), np.array([x - c[0], z - c[1]]))
            d = np.einsum("ij,j...->i...", A[j, :, 1:], np.array([s[0] - nx / 2, s[1] - nz / 2])) + A[j, :, 0][:, None, None]
            want = (1 - t) * f(j, *s) + t * f((j + 1) % ny, *(s + d))
            m.close(got[e:-e, n * j + i, e:-e], want, "intermediate planes", rtol=0, atol=2e-3)
            m.saw("intermediate points", x.size)
            m.interesting()
    G = rng.normal(size=F.shape)
    m.close(upscale(G, maps, **kw)[:, ::n], G, "original planes of an arbitrary field", rtol=0, atol=1e-6)
    if ny > 1:
        m.raises(ValueError, lambda: upscale(G[:, 1:], maps), "a field of another size")
