"""C24: tracing and fields from external services"""
import numpy as np

from lib import services
from lib.harness import layout, rng_of

PROPERTY = "C24"
LEVEL = "exploration"
REPEAT = 2
TECHNIQUE = (
    "runtime monitoring with fault injection: the client code runs against a stand-in service with a closed-form answer that logs every "
    "request (from all worker processes) and fails according to a plan; an offline checker goes through the log"
)
RULE = (
    "Random numbers and shapes of points, chunk sizes (1 up to more than the number of points), increasing and decreasing toroidal angles from any first angle, "
    "both native directions of the service, coil sets and configuration numbers; the parallel client with injected errors, "
    "hanging and truncated answers on chosen pieces and attempts, with fewer and with more failures than attempts allowed, and workers delayed at random; histories of cached "
    "fields in one directory. Non-trivial: more than one piece, a fault, or a cached field."
)
ASSUMPTIONS = [
    "the service returns one line per point in the order of the points, ending at the requested angle",
    "toroidal angles change monotonically by less than a turn in all",
]


def cases(tier, rng):
    f = 1 if tier == "quick" else 8
    out = []
    out += [dict(kind="serial") for _ in range(60 * f)]
    out += [dict(kind="parallel") for _ in range(40 * f)]
    out += [dict(kind="recover") for _ in range(40 * f)]
    out += [dict(kind="giveup") for _ in range(16 * f)]
    out += [dict(kind="hang") for _ in range(3 * f)]
    out += [dict(kind="serialfault") for _ in range(12 * f)]
    out += [dict(kind="down") for _ in range(2)]
    out += [dict(kind="demand") for _ in range(40 * f)]
    out += [dict(kind="demandfault") for _ in range(12 * f)]
    out += [dict(kind="vacuum") for _ in range(16 * f)]
    out += [dict(kind="vmec") for _ in range(8 * f)]
    out += [dict(kind="fusionsc") for _ in range(40 * f)]
    return out


def cost(case):
    return {"hang": 5, "parallel": 2, "recover": 2, "giveup": 2}.get(case["kind"], 1)


def config_of(rng):
    """A configuration id and the number the service sees in it"""
    c = [0, 1, 7, -1, "FMM002"][int(rng.integers(5))]
    if isinstance(c, int) and c >= 0:
        return c, 1.0 + 0.1 * c
    # documented order of coils and numbers of windings
    cur = {-1: [1] * 7, "FMM002": [13423] * 5 + [-3544] * 2}[c]
    ids = []
    for k in range(5):
        ids += list(range(160 + k, 210, 5))
    ids += list(range(210, 230, 2)) + list(range(211, 231, 2))
    n = np.repeat(np.array([108] * 5 + [36] * 2) * np.array(cur), 10)
    return c, 2.0 + float(np.sum(n * np.cos(ids))) * 1e-4


def points(rng, big=False):
    k = int(rng.integers(5))
    if k == 0:
        shape = ()
    elif k == 1:
        shape = (int(rng.integers(1, 60)),)
    elif k == 2:
        shape = (int(rng.integers(1, 9)), int(rng.integers(1, 9)))
    elif k == 3:
        shape = (int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 5)))
    else:
        shape = (int(rng.integers(20, 120)),)
    if big and int(np.prod(shape)) < 4:
        shape = (int(rng.integers(4, 60)),)
    R = services.R0 + rng.uniform(-0.8, 0.8, shape)
    Z = services.Z0 + rng.uniform(-0.8, 0.8, shape)
    return R, Z


def angles(rng):
    ny = int(rng.integers(2, 6))
    d = np.cumsum(rng.uniform(0.1, 1.0, ny - 1))
    y = float(rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(3, 20)])) + rng.choice([-1, 1]) * np.insert(d, 0, 0)
    return y


def piece_key(R, Z, dphi):
    """the same for every repetition of a request"""
    return f"{R[0]:.6f} {Z[0]:.6f} {dphi:.6f}"


def expect(R, Z, y, iota):
    out = np.empty((len(y),) + np.shape(np.atleast_1d(R)) + (2,))
    for i, p in enumerate(y):
        out[i, ..., 0], out[i, ..., 1] = services.follow(np.atleast_1d(R), np.atleast_1d(Z), y[0], p, iota)
    return out


def logcheck(m, log, R, Z, y, chunk, par, sense, step=None):
    """Every point is asked for at every angle, in pieces, in the right direction"""
    R, Z = np.ravel(R), np.ravel(Z)
    m.saw("requests", len(log))
    m.saw("processes", len({e["pid"] for e in log}))
    have = {}
    index = {(round(a, 7), round(b, 7)): i for i, (a, b) in enumerate(zip(R, Z))}
    for e in log:
        if not m.check(len(e["R"]) <= chunk, "size of a piece", got=len(e["R"]), want=chunk):
            return
        m.close(np.mod(np.array(e["phi0"]) - y[0] + 1, 2 * np.pi) - 1, 0 * np.array(e["phi0"]), "starting angle requested", rtol=0, atol=1e-9)
        m.close(e["par"], par, "configuration requested")
        m.check(e["sense"] == np.sign(y[1] - y[0]), "direction requested", got=e["sense"])
        if step is not None:
            m.close(e["step"], step, "step requested")
        for a, b in zip(e["R"], e["Z"]):
            k = index.get((round(a, 7), round(b, 7)))
            if not m.check(k is not None, "only the given points are requested", got=[a, b]):
                return
            have.setdefault((k, round(abs(e["dphi"]), 7)), []).append(e["what"])
    want = {(k, round(abs(p - y[0]), 7)) for k in range(len(R)) for p in y[1:]}
    m.check(set(have) == want, "every point is requested at every angle", missing=len(want - set(have)), extra=len(set(have) - want))
    # a failed piece is done again from its first angle, the others are not
    failed = {k[0] for k, v in have.items() if set(v) != {"ok"}}
    for k, v in have.items():
        if k[0] not in failed:
            m.check(v == ["ok"], "answered requests are not repeated", got=v[:5])
        else:
            m.check("ok" in v, "failed requests are repeated", got=v[:5])
    m.saw("points traced", len(R))


def tracer(w, rng, conf, **kw):
    from zoidberg.fieldtracer import FieldTracerWeb
    from zoidberg.field import _set_config

    if kw.pop("with_config", False):
        kw["config"] = _set_config(services.Thing(), conf)
    else:
        kw["configId"] = conf
    return FieldTracerWeb(**kw)


def web(case, m, rng):
    k = case["kind"]
    parallel = k not in ("serial", "serialfault")
    R, Z = points(rng, big=parallel)
    y = angles(rng)
    n = max(1, R.size)
    conf, par = config_of(rng)
    if parallel:
        chunk = int(rng.integers(max(1, n // 6), n))
    else:
        chunk = [n, n + 5, max(1, n // 3), 10000][int(rng.integers(4))]
    with_config = not parallel and (chunk < n or rng.random() < 0.4)
    retry = [None, 1, 2, 3, 5][int(rng.integers(5))]
    attempts = 3 if retry is None else retry
    starts = list(range(0, n, chunk))
    Rf, Zf = np.ravel(R), np.ravel(Z)
    plan = {}
    failures = 0
    bad = ["error", "oserror", "timeout", "short", "empty"]

    def key(s):
        return piece_key(Rf[s : s + 1], Zf[s : s + 1], abs(y[int(rng.integers(1, len(y)))] - y[0]))

    if k == "recover":
        if attempts == 1:
            retry = attempts = 4
        failures = int(rng.integers(1, attempts))
        left = failures
        while left:
            # one piece several times, or several pieces
            j = int(rng.integers(1, left + 1))
            kk = key(starts[int(rng.integers(len(starts)))])
            plan.setdefault(kk, []).extend(bad[int(rng.integers(5))] for _ in range(j))
            left -= j
    elif k == "giveup":
        plan[key(starts[int(rng.integers(len(starts)))])] = ["always " + bad[int(rng.integers(5))]]
        failures = attempts
    elif k == "hang":
        plan[key(starts[int(rng.integers(len(starts)))])] = ["hang"]
        retry = attempts = 3
    elif k == "serialfault":
        plan[key(starts[int(rng.integers(len(starts)))])] = [bad[int(rng.integers(5))]]
    sense = int(rng.choice([-1, 1]))
    iota = float(rng.uniform(-1, 1))
    step = [None, 0.02, 0.3][int(rng.integers(3))]
    with services.World(m.scratch, sense, iota, plan, delays=int(rng.integers(2**31)) if parallel else None, key=piece_key) as w:
        kw = {}
        if rng.random() < 0.5:
            kw["chunk"] = chunk
            late = {}
        else:
            late = {"chunk": chunk}
        where = kw if rng.random() < 0.5 else late
        if retry is not None:
            where["retry"] = retry
        if step:
            where["stepsize"] = step
        if k == "hang":
            late["timeout"] = 5.0
        t = tracer(w, rng, conf, with_config=with_config, **kw)
        xa, za = layout(rng, R), layout(rng, Z)
        if R.ndim == 1 and R.size > 1 and rng.random() < 0.15 and not plan:
            if rng.random() < 0.5:
                za = float(Z[0])
                Z = np.full(R.shape, za)
            else:
                xa = float(R[0])
                R = np.full(R.shape, xa)
        if not plan:
            a = np.full(3, 5.5)
            m.raises(ValueError, lambda: t.follow_field_lines(a, a, [0.3]), "a single angle")
            m.raises(ValueError, lambda: t.follow_field_lines(a, a, np.zeros((2, 2))), "2D angles")
            m.raises(ValueError, lambda: t.follow_field_lines(a, a[:2], [0.3, 0.5]), "different number of x and z")
        case_y = y.tolist() if rng.random() < 0.3 else layout(rng, y)
        m.note("parameters", dict(points=n, chunk=chunk, planes=len(y), retry=attempts, faults={a: b for a, b in plan.items()}, sense=sense))
        try:
            got = t.follow_field_lines(xa, za, case_y, **late)
            err = None
        except Exception as e:  # noqa
            got, err = None, e
        log = w.faults.log()
    seen = [e for e in log if e["what"] != "ok"]
    m.saw("faults injected", len(seen))
    m.saw("pieces", len(starts))
    m.interesting(len(starts) > 1 or seen)
    if k == "giveup":
        m.check(err is not None, "too many failures are reported")
        mine = [e for e in log if e["key"] in plan]
        m.check(attempts <= len(mine) <= attempts + 1, "number of attempts", got=len(mine), want=attempts)
        m.saw("failures reported")
        return
    if k == "serialfault":
        if err is not None:
            m.saw("failures reported")
            return
    if not m.check(err is None, "raised: " + type(err).__name__, message=str(err)[:200], attempts=attempts, failures=failures):
        return
    m.close(got, expect(R, Z, y, iota), "positions", rtol=0, atol=1e-9)
    logcheck(m, log, R, Z, y, chunk, par, sense, step)
    if k == "recover":
        m.check(len(seen) == failures, "all planned faults happened", got=len(seen), want=failures)


def field_points(rng):
    shape = [(), (7,), (3, 5), (2, 3, 4)][int(rng.integers(4))]
    x = rng.uniform(4.5, 6.5, shape)
    z = rng.uniform(-1, 1, shape)
    phi = rng.uniform(-7, 7, shape) if rng.random() < 0.5 else float(rng.uniform(-7, 7))
    return x, z, phi


def cylindrical(x, z, phi, par):
    b = services.cartesian_field(x * np.cos(phi), x * np.sin(phi), z, par)
    return b[0] * np.cos(phi) + b[1] * np.sin(phi), -b[0] * np.sin(phi) + b[1] * np.cos(phi), b[2] + 0 * phi


def compare_field(m, f, x, z, phi, want, what):
    br, bp, bz = want
    a, b = np.shape(x), np.asarray(x)
    m.close(np.asarray(f.Bxfunc(x, z, phi)), np.broadcast_to(br, a), what + " Bx")
    m.close(np.asarray(f.Byfunc(x, z, phi)), np.broadcast_to(bp, a), what + " By")
    m.close(np.asarray(f.Bzfunc(x, z, phi)), np.broadcast_to(bz, a), what + " Bz")
    if hasattr(f, "Bxyzfunc"):
        got = f.Bxyzfunc(x, z, phi)
        for g, w_, n in zip(got, want, "xyz"):
            m.close(np.asarray(g), np.broadcast_to(w_, a), what + " Bxyzfunc " + n)
    m.close(np.asarray(f.Bmag(x, z, phi)), np.broadcast_to(np.sqrt(br**2 + bp**2 + bz**2), a), what + " Bmag")
    m.close(np.asarray(f.Rfunc(x, z, phi)), np.broadcast_to(b, a), what + " Rfunc")
    m.saw("field values", b.size)


def demand(case, m, rng):
    from zoidberg.field import W7X_vacuum_on_demand

    conf, par = config_of(rng)
    fault = case["kind"] == "demandfault"
    kinds = ["error", "oserror", "timeout", "interrupt"]
    what = kinds[int(rng.integers(4))] if fault else "ok"
    often = bool(rng.integers(2))
    with services.World(m.scratch, plan={"field": ["always " + what] if often else [what]} if fault else None) as w:
        f = W7X_vacuum_on_demand(conf)
        x, z, phi = field_points(rng)
        if fault:
            try:
                got = f.Bxyzfunc(x, z, phi)
                err = None
            except BaseException as e:  # noqa
                got, err = None, e
            n = len(w.faults.log())
            m.saw("faults injected", sum(e["what"] != "ok" for e in w.faults.log()))
            m.interesting()
            if what == "interrupt":
                m.check(isinstance(err, KeyboardInterrupt) and n == 1, "an interruption by the user is not retried", got=repr(err), requests=n)
            elif often:
                m.check(err is not None, "a failing service is reported")
                m.check(2 <= n <= 4, "number of attempts", got=n)
            else:
                if m.check(err is None, "a single failure is retried", got=repr(err)):
                    for g, want in zip(got, cylindrical(x, z, phi, par)):
                        m.close(np.asarray(g), np.broadcast_to(want, np.shape(x)), "field after a retry")
            return
        compare_field(m, f, x, z, phi, cylindrical(x, z, phi, par), "field")
        m.saw("requests", len(w.faults.log()))
        g = W7X_vacuum_on_demand((conf == 0) * 3)
        compare_field(m, g, x, z, phi, cylindrical(x, z, phi, 1.0 + 0.3 * (conf == 0)), "second field")
        m.interesting()


def vacuum(case, m, rng):
    """Histories of interpolated fields in one directory: the saved files are right"""
    from zoidberg.field import W7X_vacuum

    with services.World(m.scratch) as w:
        old = []
        for step in range(int(rng.integers(3, 9))):
            if old and rng.random() < 0.4:
                conf, par, kw, plasma = old[int(rng.integers(len(old)))]
                again = True
            else:
                conf, par = config_of(rng)
                n = [int(v) for v in rng.integers(3, 8, 3)]
                kw = dict(nx=n[0], ny=n[1], nz=n[2], phimax=2 * np.pi)
                if rng.random() < 0.7:
                    a, b = np.round(rng.uniform(4, 5), 1), np.round(rng.uniform(5.5, 6.5), 1)
                    kw["x_range"] = (float(a), float(b))
                if rng.random() < 0.7:
                    kw["z_range"] = (float(np.round(rng.uniform(-1.5, -0.5), 1)), float(np.round(rng.uniform(0.5, 1.5), 1)))
                plasma = bool(rng.random() < 0.3)
                if rng.random() < 0.2:
                    kw["phimax"] = float(np.round(rng.uniform(1, 5), 1))
                again = False
                if old and rng.random() < 0.4:
                    kw = old[-1][2]  # another configuration on the same grid
                elif old and rng.random() < 0.6:
                    # all but one number the same
                    conf, par, kw, plasma = old[int(rng.integers(len(old)))]
                    kw = dict(kw)
                    what = str(rng.choice(["nx", "ny", "nz", "phimax", "x_range", "z_range", "plasma"]))
                    if what == "phimax":
                        kw[what] = float(np.round(kw[what] - rng.uniform(0.2, 1), 2))
                    elif what == "plasma":
                        plasma = not plasma
                    elif what in kw and what[0] == "n":
                        kw[what] += 1
                    else:
                        v = list(kw.get(what, (4.05, 6.55) if what == "x_range" else (-1.35, 1.35)))
                        v[int(rng.integers(2))] += float(rng.choice([-0.1, -0.02, 0.02, 0.1]))
                        kw[what] = tuple(v)
                again = any(o[0] == conf and o[2] == kw and o[3] == plasma for o in old)
            old.append((conf, par, kw, plasma))
            before = len(w.faults.log())
            f = W7X_vacuum(configuration=conf, include_plasma_field=plasma, **kw)
            r = np.linspace(*kw.get("x_range", (4.05, 6.55)), kw["nx"])
            z = np.linspace(*kw.get("z_range", (-1.35, 1.35)), kw["nz"])
            p = np.linspace(0, kw["phimax"], kw["ny"])
            if again:
                m.check(len(w.faults.log()) == before, "a saved field is not requested again")
                m.saw("saved fields used")
                m.interesting()
            Rg, Pg, Zg = np.meshgrid(r, p, z, indexing="ij")
            want = cylindrical(Rg, Zg, Pg, par)
            if plasma:
                want = [a + b for a, b in zip(want, services.plasma_field(Rg, Pg, Zg))]
            last = Pg < 6  # at 2 pi the angle wraps to zero
            back = last & (Pg < kw["phimax"] - 1e-6)  # the last plane may be left by rounding
            for fn, wv, nm in ((f.Bxfunc, want[0], "Bx"), (f.Byfunc, want[1], "By"), (f.Bzfunc, want[2], "Bz")):
                m.close(fn(Rg[last], Zg[last], Pg[last]), wv[last], "field on the grid: " + nm)
                m.close(fn(Rg[back], Zg[back], Pg[back] - 4 * np.pi), wv[back], "field two turns back: " + nm, rtol=1e-7, atol=1e-9)
                # cell centres: the mean of the corners
                c = sum(wv[i : wv.shape[0] - 1 + i, j : wv.shape[1] - 1 + j, k : wv.shape[2] - 1 + k] for i in (0, 1) for j in (0, 1) for k in (0, 1)) / 8
                rc, pc, zc = np.meshgrid(*[(v[1:] + v[:-1]) / 2 for v in (r, p, z)], indexing="ij")
                m.close(fn(rc, zc, pc), c, "field between: " + nm, rtol=1e-9, atol=1e-10)
            m.close(f.Rfunc(Rg, Zg, Pg), Rg, "Rfunc")
            m.saw("fields built")


def vmec(case, m, rng):
    from zoidberg.field import W7X_VMEC

    with services.World(m.scratch) as w:
        n = [int(v) for v in rng.integers(3, 7, 3)]
        vid = ["w7x_ref_171", "w7x_ref_1"][int(rng.integers(2))]
        kw = {} if rng.random() < 0.5 else dict(x_range=[4.5, 6.0], z_range=[-1.0, 0.8])
        f = W7X_VMEC(nx=n[0], ny=n[1], nz=n[2], vmec_id=vid, **kw)
        r = np.linspace(*kw.get("x_range", (4.05, 6.55)), n[0])
        z = np.linspace(*kw.get("z_range", (-1.35, 1.35)), n[2])
        p = np.linspace(0, 2 * np.pi, n[1])[:-1]
        Rg, Pg, Zg = np.meshgrid(r, p, z, indexing="ij")
        want = cylindrical(Rg, Zg, Pg, 0.01 * sum(map(ord, vid)))
        for fn, wv, nm in ((f.Bxfunc, want[0], "Bx"), (f.Byfunc, want[1], "By"), (f.Bzfunc, want[2], "Bz")):
            m.close(fn(Rg, Zg, Pg), wv, "VMEC field on the grid: " + nm)
        m.saw("fields built")
        m.interesting()


def fusionsc(case, m, rng):
    from zoidberg.field import FusionSCField
    from zoidberg.fieldtracer import FusionSCTracer

    iota = float(rng.uniform(-1, 1))
    with services.World(m.scratch, iota=iota) as w:
        R, Z = points(rng)
        y = angles(rng)
        kw = {} if rng.random() < 0.3 else dict(targetError=1e-5, gridder=3)
        rtol = None if rng.random() < 0.5 else 1e-7
        marker = object()
        t = FusionSCTracer(marker, **kw)
        R, Z = np.atleast_1d(R), np.atleast_1d(Z)
        got = t.follow_field_lines(layout(rng, R), layout(rng, Z), layout(rng, y), **({} if rtol is None else {"rtol": rtol}))
        m.close(got, expect(R, Z, y, iota), "positions", rtol=0, atol=1e-9)
        want = dict(kw)
        if rtol is not None:
            want["targetError"] = rtol
        m.check(w.traced[-1]["kw"] == want, "options passed on", got=w.traced[-1]["kw"], want=want)
        t.follow_field_lines(R, Z, y)
        m.check(w.traced[-1]["kw"] == kw, "rtol applies to one call only", got=w.traced[-1]["kw"], want=kw)
        m.saw("points traced", R.size)

        class Field:
            def interpolateXyz(self, xyz):
                return np.array(np.broadcast_arrays(*services.cartesian_field(*[np.asarray(v) for v in xyz], 1.5)))

        f = FusionSCField(Field())
        x, z, phi = field_points(rng)
        compare_field(m, f, x, z, phi, cylindrical(x, z, phi, 1.5), "field")
        m.interesting()


def down(case, m, rng):
    from zoidberg.fieldtracer import FieldTracerWeb

    with services.World(m.scratch, up=False):
        m.raises(OSError, lambda: FieldTracerWeb(configId=0), "an unreachable service")
    with services.World(m.scratch):
        t = FieldTracerWeb(configId=0)
        m.raises(ValueError, lambda: t.follow_field_lines(np.ones(3) * 5, np.zeros(3), [0.0]), "one angle")
        m.raises(ValueError, lambda: t.follow_field_lines(np.ones(3) * 5, np.zeros(4), [0.0, 1.0]), "different shapes")
        m.raises(AssertionError, lambda: FieldTracerWeb(), "no configuration")
    m.interesting()


def run(case, m):
    rng = rng_of(case)
    k = case["kind"]
    if k in ("serial", "parallel", "recover", "giveup", "hang", "serialfault"):
        web(case, m, rng)
    else:
        dict(demand=demand, demandfault=demand, vacuum=vacuum, vmec=vmec, fusionsc=fusionsc, down=down)[k](case, m, rng)
