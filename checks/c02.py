"""C02: the reversible tracer"""
import numpy as np

from lib import fields
from lib.harness import layout, rng_of
from checks.c01 import BOX, KINDS, starts, ys_of

PROPERTY = "C02"
LEVEL = "exploration"
REPEAT = 9
TECHNIQUE = "runtime monitoring: every output checked against an independent implicit trapezoidal integration, a round trip and the true field line"
RULE = (
    "Random field x shape of the start points x y sequence (either direction, uneven, repeated) x nsteps (1 to 60) x rtol, eps, "
    "given to the constructor or to the call. Every output position is compared with an independent implicit "
    "trapezoidal integration (fixed point iteration to 1e-14), followed back to the start, and its error "
    "against the true line must fall at second order. Non-trivial: the lines move by more than 1e-3."
)
ASSUMPTIONS = ["steps short enough for the fixed point iteration of the reference to contract"]


def cases(tier, rng):
    out = []
    shapes = ["scalar", "sx", "sz", "1d", "2d", "3d", "list", "int", "one"]
    for i in range(150 if tier == "quick" else 1500):
        out.append(
            dict(
                kind="steps",
                shape=shapes[i % len(shapes)],
                ny=int(rng.integers(2, 7)),
                ydir=["up", "down", "uneven", "uneven-down", "repeat", "return", "return"][int(rng.integers(7))],
                y0=[0.0, float(rng.uniform(-7, 7))][int(rng.integers(2))],
                L=float(rng.choice([0.1, 1.0, 3.0])),
                n=int(rng.integers(2, 30)),
                nsteps=[None, 1, 2, 3, 7, 20, 60][int(rng.integers(7))],
                how=["call", "init"][int(rng.integers(2))],
                rtol=[None, 1e-20][int(rng.integers(2))],
                eps=[None, 1e-6][int(rng.integers(2))],
            )
        )
    for i in range(30 if tier == "quick" else 300):
        out.append(dict(kind="order", ydir=["up", "down"][i % 2], n=int(rng.integers(1, 10))))
    for i in range(40 if tier == "quick" else 300):
        out.append(dict(kind="together", n=int(rng.integers(1, 12))))
    for i in range(6 if tier == "quick" else 30):
        out.append(dict(kind="reject"))
    return out


def trapezoid(spec, x, z, ys, nsteps):
    d = fields.direction(spec)
    x = np.array(x, dtype=float)
    z = np.array(z, dtype=float)
    out = [np.stack([x, z], -1)]
    for a, b in zip(ys[:-1], ys[1:]):
        h = (b - a) / nsteps
        for s in range(nsteps):
            ya, yb = a + s * h, a + (s + 1) * h
            ux, uz = d(x, z, ya)
            xn, zn = x + h * ux, z + h * uz
            for it in range(400):
                vx, vz = d(xn, zn, yb)
                x2 = x + 0.5 * h * (ux + vx)
                z2 = z + 0.5 * h * (uz + vz)
                e = np.max(np.abs(x2 - xn) + np.abs(z2 - zn))
                xn, zn = x2, z2
                if e < 1e-14:
                    break
            else:
                return None
            x, z = xn, zn
        out.append(np.stack([x, z], -1))
    return np.array(out)


def run(case, m):
    import zoidberg as zb

    T = zb.fieldtracer.FieldTracerReversible
    rng = rng_of(case)
    k = case["kind"]
    if k == "steps":
        if case["shape"] == "int":
            spec = fields.random_spec(rng, ["custom", "slab"], (1, 2), (-0.5, 0.5), length=case["L"])
        else:
            spec = fields.random_spec(rng, KINDS, *BOX, length=case["L"])
        m.note("field", spec)
        x, z = starts(case["shape"], case["n"], rng, BOX)
        x, z = layout(rng, x), layout(rng, z)
        ys = ys_of(case, rng)
        if case["ydir"] == "return":
            # there and back again, more than once
            ys = ys[[0, 1, 0, *rng.integers(0, len(ys), 3)]]
        yin = [ys, list(ys)][int(rng.integers(2))]
        f = fields.build(spec)
        kw = {a: case[a] for a in ("nsteps", "rtol", "eps") if case[a] is not None}
        if case["how"] == "init":
            tr = T(f, **kw)
            kw = {}
        elif rng.random() < 0.5:
            # the settings of a call replace those of the tracer
            other = dict(nsteps=int(rng.integers(1, 9)), rtol=float(rng.choice([1e-2, 1e-4, 1e-20])), eps=1e-4)
            tr = T(f, **{a: other[a] for a in kw})
        else:
            tr = T(f)
        keep = [np.array(a, copy=True) for a in (x, z, yin)]
        got = tr.follow_field_lines(x, z, yin, **kw)
        X, Z = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(z))
        want = trapezoid(spec, X, Z, ys, case["nsteps"] or 20)
        tol = 1e-9 if case["rtol"] else 1e-6
        if want is None:
            m.saw("reference did not contract")
            return
        m.close(got, want, f"trapezoidal rule {case['rtol']}", rtol=0, atol=tol)
        m.close(got[0], np.stack([X, Z], -1), "first entry is the start", rtol=1e-14, atol=0)
        back = tr.follow_field_lines(got[-1, ..., 0], got[-1, ..., 1], ys[::-1], **kw)
        m.close(back[::-1], got, f"round trip {case['rtol']}", rtol=0, atol=tol)
        for a, b, nme in zip((x, z, yin), keep, "xzy"):
            m.equal(a, b, f"input {nme} unchanged")
        m.saw("lines followed and retraced", X.size)
        m.saw("sub-steps", X.size * (len(ys) - 1) * (case["nsteps"] or 20))
        m.interesting(np.max(np.abs(want - want[0])) > 1e-3)
    elif k == "order":
        spec = fields.random_spec(rng, KINDS, *BOX, length=1.0)
        m.note("field", spec)
        n = case["n"]
        x, z = rng.uniform(*BOX[0], n), rng.uniform(*BOX[1], n)
        y0 = float(rng.uniform(-3, 3))
        s = 1 if case["ydir"] == "up" else -1
        ys = y0 + s * np.array([0, 0.3, 1.0])
        tr = T(fields.build(spec), rtol=1e-20)
        ref = fields.trace(spec, x, z, ys)
        err = [np.max(np.abs(tr.follow_field_lines(x, z, ys, nsteps=ns) - ref)) for ns in (10, 40)]
        m.note("errors at 10 and 40 steps", err)
        m.check(err[0] < 0.02, "close to the field line", err=err)
        m.check(err[1] <= err[0] / 9 + 1e-8, "second order", err=err)
        dfl = np.max(np.abs(T(fields.build(spec)).follow_field_lines(x, z, ys) - ref))
        m.check(dfl < 0.005, "close to the field line with the defaults", err=dfl)
        m.saw("lines followed", 3 * n)
        m.interesting(np.max(np.abs(ref - ref[0])) > 1e-3)
    elif k == "together":
        # lines that stand still (on an axis) next to lines that are hard to
        # converge: every one of them has to obey the rule
        n = case["n"]
        a, b, w = rng.uniform(0.5, 3), rng.uniform(0.5, 2), rng.uniform(0.5, 2) * rng.choice([-1, 1])
        x0, z0 = rng.uniform(-1, 1, 2)

        class Orbit(zb.field.MagneticField):
            # no motion at all at (x0, z0), differential rotation around it
            def rate(self, x, z):
                r2 = (x - x0) ** 2 + (z - z0) ** 2
                return w * (a * r2 + b * r2**2)

            def Bxfunc(self, x, z, phi):
                return -(z - z0) * self.rate(x, z)

            def Bzfunc(self, x, z, phi):
                return (x - x0) * self.rate(x, z)

            def Byfunc(self, x, z, phi):
                return np.ones(np.shape(x))

        f = Orbit()
        r = rng.uniform(0.2, 0.9, n) * (rng.random(n) < 0.7)
        th = rng.uniform(0, 2 * np.pi, n)
        # sometimes among a crowd that does not move
        crowd = int(rng.choice([1, 1, 300, 4000]))
        x = np.append(x0 + r * np.cos(th), np.full(crowd, x0))
        z = np.append(z0 + r * np.sin(th), np.full(crowd, z0))
        order = rng.permutation(n + crowd)
        x, z = x[order], z[order]
        rtol = float(rng.choice([1e-8, 1e-12, 1e-20]))
        ns = int(rng.choice([2, 4, 10]))
        ys = float(rng.uniform(-1, 1)) + np.array([0, 0.4 / max(1, abs(w))]) * rng.choice([-1, 1])
        tr = T(f, rtol=rtol, nsteps=ns)
        got = tr.follow_field_lines(x, z, ys)
        for i in np.append(np.nonzero(order < n)[0], np.nonzero(order >= n)[0][:1]):
            one = tr.follow_field_lines(x[i : i + 1], z[i : i + 1], ys)
            m.close(got[:, i], one[:, 0], "line traced among others and alone", rtol=0, atol=max(1e-9, 3 * ns * rtol))
        back = tr.follow_field_lines(got[-1, :, 0], got[-1, :, 1], ys[::-1])
        m.close(back[::-1], got, "round trip of lines traced together", rtol=0, atol=max(1e-9, 10 * ns * rtol))
        m.saw("lines followed and retraced", n + crowd)
        m.interesting(np.any(r > 0))
    else:
        tr = T(zb.field.Slab())
        a = rng.uniform(size=int(rng.integers(2, 9)))
        E = ValueError
        m.raises(E, lambda: tr.follow_field_lines(a, a, [0.0]), "a single y value")
        m.raises(E, lambda: tr.follow_field_lines(a, a, np.zeros((2, 2))), "2D y values")
        m.raises(E, lambda: tr.follow_field_lines(a, np.append(a, 0), [0, 1]), "different number of x and z")
        A = np.zeros((int(rng.integers(2, 9)), 10))
        m.raises(E, lambda: tr.follow_field_lines(A, A.T, [0, 1]), "transposed start points")
        m.raises(E, lambda: tr.follow_field_lines(A, A.ravel(), [0, 1]), "flattened start points")
        m.interesting()
