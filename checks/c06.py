"""C06: sub-cell sampling"""
import numpy as np

from lib import fields, grids
from lib.harness import rng_of
from checks.c05 import BOX, KINDS, given_tracer, make_boundary, name

PROPERTY = "C06"
LEVEL = "exploration"
REPEAT = 5
TECHNIQUE = "runtime monitoring: weighted moments and marked weights of every cell's samples compared with an independent quadrature"
RULE = (
    "Random grid x field x boundary x 1 to 4 samples per dimension x 1 to 3 slices. For every cell and offset the weighted moments of the "
    "end points up to third order and the weight of samples marked as having left are compared with an "
    "independent Gauss-Legendre quadrature of the reference map; with a vanishing in-plane field the samples must integrate polynomials of degree 2n-1 "
    "exactly. The order of the samples is not judged. Non-trivial: more than one sample."
)
ASSUMPTIONS = [
    "within a cell of a structured grid the start points are those of linear interpolation between cell centres, as documented in the code",
    "cells with a sample ending 0.4 to 1 cells from the edge of an annulus, or within 1e-3 of a boundary object, are not judged",
]


def cases(tier, rng):
    out = []
    for i in range(110 if tier == "quick" else 1000):
        out.append(
            dict(
                kind=["rect", "ann"][i % 2],
                n=[2, 3, 2, 4, 1, 2, 3][i % 7],
                nslice=int(rng.choice([1, 2, 3])),
                boundary=["none", "rect", "moving", "none"][int(rng.integers(4))],
                tracer=["default", "recording", "other"][int(rng.choice([0, 0, 0, 1, 2]))],
                rtol=[None, 1e-9, 1e-7][int(rng.integers(3))],
            )
        )
    for i in range(24 if tier == "quick" else 200):
        out.append(dict(kind="moments", n=[1, 2, 3, 4, 5][i % 5], grid=["rect", "ann"][i // 5 % 2], nslice=[1, 2][i % 2]))
    return out


def cost(c):
    return c["n"] ** 2 * c["nslice"]


def run(case, m):
    import zoidberg as zb

    rng = rng_of(case)
    n = case["n"]
    if case["kind"] == "moments":
        return moments(case, m, zb, rng)
    g = grids.random_grid(rng, kind=case["kind"], ny=int(rng.integers(1, 4)))
    L = case["nslice"] * g["Ly"] / len(g["y"])
    spec = fields.random_spec(rng, KINDS, *BOX, length=L)
    m.note("grid", g)
    m.note("field", spec)
    bnd, dist = make_boundary(case["boundary"], rng)
    f = fields.build(spec, boundary=bnd)
    ref, tracer, kw = given_tracer(zb, case, rng, f, spec, L)
    maps = zb.make_maps(
        grids.grid_build(g),
        f,
        nslice=case["nslice"],
        quiet=True,
        samples_per_dim=n,
        n_chunks=1,
        refine_parallel_integral=1,
        **kw,
    )
    check_samples(m, maps, g, ref, n, case["nslice"], dist)
    if tracer is not None:
        tracer.judge(m, case["rtol"])
    m.interesting(n > 1)


def check_samples(m, maps, g, spec, n, nslice, dist):
    """The sub-cell samples of the maps against lines of the field of spec"""
    w = np.asarray(maps["subcell_weights"])
    nx, ny, nz = maps["R"].shape
    m.equal(w.shape, (n * n,), "number of weights", stop=True)
    m.check(w > 0, "weights positive")
    m.close(np.sum(w), 1.0, "sum of weights", rtol=1e-12)
    xs, ws = np.polynomial.legendre.leggauss(n)
    xs, ws = 0.5 * xs, 0.5 * ws
    for j in range(ny):
        p0, y0 = grids.plane_at(g, j)
        for off in [s * o for s in (1, -1) for o in range(1, nslice + 1)]:
            p, y = grids.plane_at(g, j + off)
            d = dict(plane=j, offset=off)
            A, B = maps[name("xt_primes", off)], maps[name("zt_primes", off)]
            m.equal(A.shape, (nx, ny, nz, n * n), "shape of the sub-cell maps", stop=True, **d)
            xt, zt = A[:, j], B[:, j]
            m.saw("samples", xt.size)
            if n == 1:
                m.equal(xt[..., 0], maps[name("xt_prime", off)][:, j], "one sample is the centre", **d)
                m.equal(zt[..., 0], maps[name("zt_prime", off)][:, j], "one sample is the centre", **d)
            if p is None:
                m.equal(xt, np.full(xt.shape, -1.0), "no destination plane", **d)
                continue
            # reference
            X, Zi, W, near, bad = [], [], [], np.zeros((nx, nz), bool), []
            for a in range(n):
                for b in range(n):
                    s = grids.subcell_starts(p0, xs[a], xs[b])
                    e = fields.trace(spec, s[0], s[1], [y0, y])[1]
                    xi, zi = grids.plane_index(p, e[..., 0], e[..., 1])
                    bd = np.broadcast_to(dist(e[..., 0], y, e[..., 1]), xi.shape)
                    near |= np.abs(bd) < 1e-3
                    state = np.where(bd > 0, 1, 0)
                    if p["kind"] == "ann":
                        near |= (state == 0) & ((np.abs(xi - 0.7) < 0.3) | (np.abs(xi - (nx - 1.7)) < 0.3))
                        state = np.where((state == 0) & (xi < 0.5), 2, state)
                        state = np.where((state == 0) & (xi > nx - 1.5), 3, state)
                    X.append(xi)
                    Zi.append(zi)
                    W.append(ws[a] * ws[b])
                    bad.append(state)
            X, Zi, bad = np.stack(X, -1), np.stack(Zi, -1), np.stack(bad, -1)
            W = np.array(W)
            ok = ~near
            if p["kind"] == "ann":
                gbad = np.where(xt == -1, 12, np.where(xt == nx, 3, 0))
                rbad = np.where((bad == 1) | (bad == 2), 12, bad)
                tol = 3e-3
            else:
                # an index of exactly -1 in both is the marker
                gbad = np.where((xt == -1) & (zt == -1), 1, 0)
                rbad = bad
                tol = 1e-3
            for s in np.unique(np.concatenate([gbad.ravel(), rbad.ravel()])):
                m.close(
                    ((gbad == s) @ w)[ok],
                    ((rbad == s) @ W)[ok],
                    "weight of the samples " + {0: "staying", 3: "leaving outside"}.get(int(s), "leaving"),
                    rtol=0,
                    atol=1e-9,
                    **d,
                )
            m.saw("cells partly leaving", np.sum(np.any(rbad != 0, -1) & np.any(rbad == 0, -1) & ok))
            m.saw("samples leaving", np.sum(rbad != 0))
            # moments relative to the reference centre of the staying samples
            gin, rin = gbad == 0, rbad == 0
            xc = np.mean(X, -1)
            if p["kind"] == "ann":
                zc = Zi[..., 0]
                mod = lambda q: np.mod(q + 0.5 * nz, nz) - 0.5 * nz  # noqa
            else:
                zc = np.mean(Zi, -1)
                mod = lambda q: q  # noqa
            for a, b in [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)]:
                got = np.sum(w * gin * (xt - xc[..., None]) ** a * mod(zt - zc[..., None]) ** b, -1)
                want = np.sum(W * rin * (X - xc[..., None]) ** a * mod(Zi - zc[..., None]) ** b, -1)
                scale = np.sum(W * rin * np.abs(X - xc[..., None]) ** a * np.abs(mod(Zi - zc[..., None])) ** b, -1)
                m.close(
                    ((got - want) / (1 + scale))[ok], np.zeros(np.sum(ok)), f"moment {p['kind']}: {a},{b}", rtol=0, atol=tol, **d
                )


def moments(case, m, zb, rng):
    """No field in the plane: the end points are the start points"""
    n = case["n"]
    g = grids.random_grid(rng, kind=case["grid"], ny=2, same=True, nz=None if case["grid"] == "rect" else 90, nzmin=24)
    spec = dict(type="slab", By=1.0, Bz=0.0, xcentre=0.0, Bzprime=0.0)
    maps = zb.make_maps(
        grids.grid_build(g),
        fields.build(spec),
        nslice=case["nslice"],
        quiet=True,
        samples_per_dim=n,
        n_chunks=1,
        refine_parallel_integral=1,
    )
    w = maps["subcell_weights"]
    nx, ny, nz = maps["R"].shape
    ii = np.arange(nx)[:, None, None]
    kk = np.arange(nz)[None, :, None]
    for off in [s * o for s in (1, -1) for o in range(1, case["nslice"] + 1)]:
        for j in range(ny):
            p, _ = grids.plane_at(g, j + off)
            xt = maps[name("xt_primes", off)][:, j]
            zt = maps[name("zt_primes", off)][:, j]
            if p is None:
                m.equal(xt, np.full(xt.shape, -1.0), "no destination plane")
                continue
            sl = slice(2, -2) if p["kind"] == "ann" else slice(None)
            dx, dz = (xt - ii)[sl], (zt - kk)[sl]
            if p["kind"] == "ann":
                dz = np.mod(dz + nz / 2, nz) - nz / 2
            tol = 1e-7 if p["kind"] == "rect" else 2e-2
            m.check(np.abs(dx) < 0.5 + tol, "samples within the cell", off=off)
            m.check(np.abs(dz) < 0.5 + tol, "samples within the cell", off=off)
            for a in range(0, 2 * n):
                for b in range(0, 2 * n):
                    if a + b == 0:
                        continue
                    e = lambda q: (0.5**q / (q + 1) if q % 2 == 0 else 0.0)  # noqa
                    got = np.sum(w * dx**a * dz**b, -1)
                    m.close(got, np.full(got.shape, e(a) * e(b)), f"integral of x^a z^b {p['kind']}", rtol=0, atol=tol, a=a, b=b)
                    m.saw("integrals")
    m.interesting()
