"""C03: Poincare sections"""
import numpy as np

from lib import fields
from lib.harness import rng_of

PROPERTY = "C03"
LEVEL = "exploration"
REPEAT = 12
TECHNIQUE = "runtime monitoring: every Poincare point compared with a reference integration of its own field line"
RULE = (
    "Random field x start points (scalar, list, 1D, 2D, scalar with array) x period x planes (number of planes, or a list or array in any "
    "order, with repeated and end points) x revolutions x oversampling. Every returned point is compared with a reference "
    "integration of that line. Non-trivial: several planes or revolutions and the lines move."
)
ASSUMPTIONS = ["DOP853 at rtol 1e-11 is the reference", "tolerance 1e-5 in a box of size 1"]
BOX = ((0.6, 1.6), (-0.5, 0.5))


def cases(tier, rng):
    out = []
    for i in range(160 if tier == "quick" else 1500):
        out.append(
            dict(
                kind="planes" if i % 2 else "number",
                shape=["scalar", "1d", "2d", "list", "sx", "sz", "one", "many"][i % 8],
                period=float(rng.choice([0.3, 1.0, 2 * np.pi, 10.0, 17.0])),
                revs=int(rng.choice([1, 2, 3, 7, 20])),
                nplot=int(rng.integers(1, 7)),
                nover=[None, 1, 2, 5, 20][int(rng.integers(5))],
                n=int(rng.integers(2, 9)),
            )
        )
    for i in range(8 if tier == "quick" else 40):
        out.append(dict(kind="reject"))
    return out


def cost(c):
    return c.get("revs", 0) + (100 if c.get("shape") == "many" else 0)


def run(case, m):
    import zoidberg as zb

    tp = zb.fieldtracer.trace_poincare
    rng = rng_of(case)
    if case["kind"] == "reject":
        f = zb.field.Slab()
        x = rng.uniform(size=3)
        P = float(rng.uniform(0.5, 9))
        E = ValueError
        m.raises(E, lambda: tp(f, x, x, P, nplot=None, y_slices=None), "neither planes nor their number")
        m.raises(E, lambda: tp(f, x, x, P, y_slices=[0, P * 1.01]), "plane beyond the period")
        m.raises(E, lambda: tp(f, x, x, P, y_slices=[0.5 * P, -0.01 * P, 0.1 * P]), "plane before 0")
        m.raises(E, lambda: tp(f, x, x, P, y_slices=np.array([0.5 * P, 3 * P, 0.1 * P])), "plane beyond the period")
        r, s = tp(f, x, x, P, y_slices=[0, P], revs=1)
        m.equal(s, [0, P], "a plane at the period is allowed")
        m.interesting()
        return
    P, revs, nplot = case["period"], case["revs"], case["nplot"]
    if revs == 1 and nplot == 1:
        nplot = 2  # a single position is not a trace
    spec = fields.random_spec(
        rng, ["slab", "curved", "straight", "ellipse", "screw", "custom", "custom"], *BOX, length=P * min(revs, 3)
    )
    if spec.get("flow") == "hyperbolic":
        spec["p"][0] /= revs
    m.note("field", spec)
    n = 300 if case["shape"] == "many" else case["n"]
    ux = lambda *s: rng.uniform(0.8, 1.4, s)  # noqa
    uz = lambda *s: rng.uniform(-0.25, 0.25, s)  # noqa
    x, z = dict(
        scalar=lambda: (float(ux()), float(uz())),
        one=lambda: (ux(1), uz(1)),
        list=lambda: (list(ux(n)), list(uz(n))),
        sx=lambda: (float(ux()), uz(n)),
        sz=lambda: (ux(n), float(uz())),
    ).get(case["shape"], lambda: (ux(n), uz(n)))()
    if case["shape"] == "2d":
        x, z = ux(2, n), uz(2, n)
    if case["shape"] == "many":
        revs = min(revs, 3)
    kw = dict(revs=revs)
    if case["nover"]:
        kw["nover"] = case["nover"]
    if case["kind"] == "number":
        planes = np.arange(nplot) * P / nplot
        got, sl = tp(fields.build(spec), x, z, P, nplot=nplot, **kw)
    else:
        planes = rng.uniform(0, P, nplot)
        if nplot > 2 and rng.random() < 0.3:
            planes[0] = 0.0
        if nplot > 2 and rng.random() < 0.3:
            planes[-1] = P
        if rng.random() < 0.2:
            planes[:] = np.round(planes / P * 4) * P / 4
        planes = rng.permutation(planes)
        if len(np.unique(planes)) == 1 and revs == 1:
            planes[0] = 0.1 * P
        given = [planes.copy(), list(planes)][int(rng.integers(2))]
        if rng.random() < 0.3:
            kw["nplot"] = None
        got, sl = tp(fields.build(spec), x, z, P, y_slices=given, **kw)
        m.equal(given, planes, "plane list unchanged")
        planes = np.sort(planes)
    m.close(sl, planes, "reported planes", rtol=1e-12, atol=1e-12)
    X, Z = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(z))
    m.equal(np.shape(got), (revs, nplot) + X.shape + (2,), "shape of the result", stop=True)
    ys = (planes[None, :] + P * np.arange(revs)[:, None]).ravel()
    want = fields.trace(spec, X, Z, ys).reshape((revs, nplot) + X.shape + (2,))
    m.close(got, want, "Poincare points", rtol=1e-5, atol=1e-5)
    m.saw("points on planes", want[..., 0].size)
    m.saw("planes", nplot)
    m.saw("revolutions", revs)
    m.interesting(nplot * revs > 1 and np.max(np.abs(want - want[0, 0])) > 5e-3)
