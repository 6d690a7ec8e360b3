"""C25: VMEC equilibria"""
import os

import numpy as np

from lib.harness import rng_of

PROPERTY = "C25"
LEVEL = "exploration"
REPEAT = 12
TECHNIQUE = (
    "runtime monitoring of the reader on synthesised equilibrium files whose field is known in closed form "
    "(linear in R and Z in every plane, so that its interpolation is exact), compared at nodes and between them"
)
RULE = (
    "Random equilibria: circular, elliptical, tilted and helically rotating surfaces, helical axes, 1 to 5 field periods, up-down asymmetric ones, uniform and linearly varying "
    "contravariant components, positions on the axis, 4 to 20 surfaces, different numbers of angles and interpolation points, with and without optional file entries; "
    "positions at the toroidal planes and any number of turns away. Non-trivial: at least 10 positions inside the plasma were compared."
)
ASSUMPTIONS = [
    "the file's angle is m theta - n zeta, its field components are on the half mesh and its first surface is the axis (the VMEC convention)",
    "positions whose interpolation involves points outside the plasma are not judged",
]


def cases(tier, rng):
    n = 70 if tier == "quick" else 600
    return [dict(kind=["circle", "ellipse", "rotating", "axis", "asymmetric", "shear", "onaxis"][i % 7]) for i in range(n)]


def write(fn, rng, kind):
    """-> function (s, theta, zeta) -> R, Z, BR, Bphi, BZ and details"""
    from netCDF4 import Dataset

    ns = int(rng.integers(5, 20))
    nfp = int(rng.integers(1, 6))
    R0, a = rng.uniform(3, 6), rng.uniform(0.3, 1.0)
    # modes: (m, n): [rc, zs, rs, zc] as functions of s = (constant, linear)
    modes = {(0, 0): [(R0, 0), (0, 0), (0, 0), (0, 0)]}

    def add(mn, rc=0.0, zs=0.0, rs=0.0, zc=0.0, lin=True):
        e = modes.setdefault(mn, [(0, 0)] * 4)
        v = [(0, x) if lin else (x, 0) for x in (rc, zs, rs, zc)]
        modes[mn] = [(p[0] + q[0], p[1] + q[1]) for p, q in zip(e, v)]

    kappa = 1.0 if kind in ("circle", "onaxis") else rng.uniform(0.6, 1.8)
    add((1, 0), a, a * kappa)
    if kind in ("rotating", "asymmetric"):
        e = rng.uniform(-0.25, 0.25) * a
        add((1, nfp * int(rng.choice([-1, 1]))), e, e * rng.choice([-1, 1]))
    if kind in ("axis", "rotating", "asymmetric"):
        add((0, nfp), rng.uniform(0.05, 0.2), rng.uniform(-0.2, 0.2), lin=False)
    asym = kind == "asymmetric"
    if asym:
        add((1, 0), rs=rng.uniform(-0.3, 0.3) * a, zc=rng.uniform(-0.3, 0.3) * a)
        add((0, nfp), rs=rng.uniform(0, 0.1), zc=rng.uniform(-0.1, 0.1), lin=False)
        if rng.random() < 0.5:
            add((0, 0), zc=rng.uniform(-0.5, 0.5), lin=False)
    # contravariant field: constant, linear in s for "shear"
    bu0, bv0 = rng.uniform(-0.5, 0.5), rng.choice([-1, 1]) * rng.uniform(0.5, 2)
    bu1 = rng.uniform(0.1, 0.3) if kind == "shear" else 0.0
    # modes of the field with the angle only: constant along a line in each plane
    bv1 = rng.uniform(-0.3, 0.3) if kind == "onaxis" else 0.0
    b = {(0, 0): [(bu0, bu1), (bv0, bv1), (0, 0), (0, 0)]}
    if kind not in ("circle", "onaxis") and rng.random() < 0.7:
        b[(0, nfp)] = [(rng.uniform(-0.1, 0.1), 0), (rng.uniform(-0.1, 0.1), 0), (0, 0), (0, 0)]
        if asym:
            b[(0, nfp)][2:] = [(rng.uniform(-0.1, 0.1), 0), (rng.uniform(-0.1, 0.1), 0)]
    mn = sorted(set(modes) | set(b))
    if rng.random() < 0.5:
        mn += [(2, -nfp), (8, nfp)]  # modes without amplitude
    zero = [(0, 0)] * 4
    s = np.linspace(0, 1, ns)
    half = s - 0.5 / (ns - 1)

    def coef(tab, i, u, blank=False):
        out = np.array([[tab.get(k, zero)[i][0] + tab.get(k, zero)[i][1] * x for k in mn] for x in u])
        if blank:
            out[0] = 0.0
        return out

    mpol = 1 + max(m for m, n in mn)
    ntor = max(abs(n) for m, n in mn)
    with Dataset(fn, "w") as f:
        f.createDimension("radius", ns)
        f.createDimension("mn", len(mn))

        def put(name, val, dims=()):
            v = f.createVariable(name, "i4" if not dims else "f8", dims)
            v[...] = val

        put("ns", ns)
        put("mpol", mpol)
        put("ntor", ntor)
        put("nfp", nfp)
        if asym:
            put("iasym", 1)
        elif rng.random() < 0.7:
            put("iasym", 0)
        put("xm", np.array([float(k[0]) for k in mn]), ("mn",))
        put("xn", np.array([float(k[1]) for k in mn]), ("mn",))
        names = ["rmnc", "zmns", "rmns", "zmnc"]
        for i, nm in enumerate(names):
            if i < 2 or asym:
                put(nm, coef(modes, i, s), ("radius", "mn"))
        for i, nm in enumerate(["bsupumnc", "bsupvmnc", "bsupumns", "bsupvmns"]):
            if i < 2 or asym:
                put(nm, coef(b, i, half, blank=True), ("radius", "mn"))

    def ev(s, th, ze):
        R = Z = Ru = Rv = Zu = Zv = bu = bv = 0.0
        for k in mn:
            ang = k[0] * th - k[1] * ze
            c, d = np.cos(ang), np.sin(ang)
            rc, zs, rs, zc = [p[0] + p[1] * s for p in modes.get(k, zero)]
            R = R + rc * c + rs * d
            Z = Z + zs * d + zc * c
            Ru = Ru + k[0] * (-rc * d + rs * c)
            Rv = Rv - k[1] * (-rc * d + rs * c)
            Zu = Zu + k[0] * (zs * c - zc * d)
            Zv = Zv - k[1] * (zs * c - zc * d)
            uc, vc, us, vs = [p[0] + p[1] * s for p in b.get(k, zero)]
            bu = bu + uc * c + us * d
            bv = bv + vc * c + vs * d
        return R, Z, bu * Ru + bv * Rv, R * bv, bu * Zu + bv * Zv

    return ev, dict(ns=ns, nfp=nfp, mpol=mpol, ntor=ntor, modes=len(mn)), (1.0 * bu1 * a / (ns - 1) if bu1 else 0.0)


def run(case, m):
    from zoidberg.field import VMEC

    rng = rng_of(case)
    kind = case["kind"]
    fn = os.path.join(m.scratch, "wout.nc")
    ev, info, err = write(fn, rng, kind)
    ntheta = int(rng.integers(16, 40))
    nzeta = int(rng.integers(3, 12))
    nr, nz = int(rng.integers(20, 50)), int(rng.integers(20, 50))
    if kind == "onaxis":
        # an interpolation point on the axis
        ntheta, nr, nz = (v // 2 * 2 + 1 for v in (ntheta, nr, nz))
    f = VMEC(fn, ntheta=ntheta, nzeta=nzeta, nr=nr, nz=nz)
    m.note("parameters", dict(info, ntheta=ntheta, nzeta=nzeta, nr=nr, nz=nz))
    zeta = np.linspace(0, 2 * np.pi, nzeta)
    theta = np.linspace(0, 2 * np.pi, ntheta)
    s = np.linspace(0, 1, info["ns"])
    S, T, P = np.meshgrid(s, theta, zeta, indexing="ij")
    R, Z = ev(S, T, P)[:2]
    r1, z1 = np.linspace(R.min(), R.max(), nr), np.linspace(Z.min(), Z.max(), nz)
    if kind == "onaxis":
        R0, Z0 = ev(0.0, 0.0, 0.0)[:2]
        one = np.ones(nzeta)
        _, _, BR, BP, BZ = ev(0.0, 0.0, zeta)
        for fn_, w, nm in ((f.Bxfunc, BR, "B_R"), (f.Byfunc, BP, "B_phi"), (f.Bzfunc, BZ, "B_Z")):
            m.close(fn_(R0 * one, Z0 * one, zeta), w * one, nm + " on the axis", rtol=1e-7, atol=1e-8)
        m.saw("positions on the axis", nzeta)
        m.interesting()
        return
    inner = 0.98 * np.cos(np.pi / (ntheta - 1))
    n = 0
    for k in rng.permutation(nzeta - 1)[:4]:
        p = zeta[k]
        # in one plane R, Z is an affine function of s (cos theta, sin theta)
        c0 = np.array(ev(0.0, 0.0, p)[:2])
        M = np.array([np.array(ev(1.0, t, p)[:2]) - c0 for t in (0.0, np.pi / 2)]).T
        Minv = np.linalg.inv(M)

        def coords(x, z):
            u = np.einsum("ij,j...->i...", Minv, np.array([x - c0[0], z - c0[1]]))
            return np.hypot(*u), np.arctan2(u[1], u[0])

        x = rng.uniform(r1[0], r1[-1], 300)
        z = rng.uniform(z1[0], z1[-1], 300)
        x[:100] = r1[rng.integers(0, nr, 100)]
        z[:100] = z1[rng.integers(0, nz, 100)]
        hr, hz = r1[1] - r1[0], z1[1] - z1[0]
        i = np.clip(np.floor((x - r1[0]) / hr).astype(int), 0, nr - 2)
        j = np.clip(np.floor((z - z1[0]) / hz).astype(int), 0, nz - 2)
        ok = np.ones(300, dtype=bool)
        for a in (0, 1):
            for b in (0, 1):
                ok &= coords(r1[i + a], z1[j + b])[0] < inner
        x, z = x[ok], z[ok]
        if not len(x):
            continue
        sv, tv = coords(x, z)
        want = ev(sv, tv, p)
        m.close(want[0], x, "own inversion", atol=1e-9)
        turns = int(rng.integers(-2, 3)) if rng.random() < 0.6 else int(rng.integers(-3000, 3000))
        q = p + 2 * np.pi * turns
        tol = dict(rtol=1e-6, atol=1e-7 + err + (turns != 0) * 1e-6 + abs(turns) * 1e-11)
        m.close(f.Bxfunc(x, z, q), want[2], "B_R", **tol)
        m.close(f.Byfunc(x, z, q), want[3], "B_phi", rtol=1e-6, atol=1e-6)
        m.close(f.Bzfunc(x, z, q), want[4], "B_Z", **tol)
        m.close(f.Rfunc(x, z, q), x, "major radius")
        m.close(f.Bmag(x, z, q), np.sqrt(want[2] ** 2 + want[3] ** 2 + want[4] ** 2), "field strength", **tol)
        if k == 0:
            # just before a full turn
            for q in (-1e-10, -1e-18, 2 * np.pi - 1e-12, 2 * np.pi, 4 * np.pi):
                m.close(f.Bxfunc(x, z, q), want[2], "B_R around a full turn", **tol)
                m.close(f.Byfunc(x, z, q), want[3], "B_phi around a full turn", rtol=1e-6, atol=1e-6)
                m.close(f.Bzfunc(x, z, q), want[4], "B_Z around a full turn", **tol)
        if kind == "shear":
            edge = sv > 1 - 1.5 / (info["ns"] - 1)
            m.saw("positions near the edge", int(np.sum(edge)))
        m.saw("positions inside", len(x))
        n += len(x)
    # default numbers of angles
    if info["mpol"] > 5:
        g = VMEC(fn, nr=8, nz=8)
        m.check(np.all(np.isfinite(g.Byfunc(R[:, 0, 0], Z[:, 0, 0], 0.0))), "default resolution")
    m.interesting(n > 10)
