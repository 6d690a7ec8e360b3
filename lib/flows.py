"""Workflows over the public API, used to watch for hidden state (C20) and
changed inputs (C21).

A workflow is ``flow(rng, call, vary)``: every call of the library goes through
``call(fn, *args, **kw)`` and every array given to it through ``vary``, which
may turn it into something equal (a list, read-only, not contiguous).  It
returns the outputs by name."""
import types

import numpy as np

from lib import curves, fields, grids
from lib import maps as M

BOX = ((0.6, 1.6), (-0.5, 0.5))

QUIET = True  # show no progress bars


# ------------------------------------------------------------------ snapshots
def flatten(o, name="", out=None, seen=None):
    """{path: array or plain value} of everything an object holds"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(o, (np.ndarray, np.generic)):
        out[name] = np.array(o, copy=True)
    elif isinstance(o, (bool, int, float, complex, str, type(None))):
        out[name] = o
    elif isinstance(o, (list, tuple)):
        out[name + "/len"] = len(o)
        if len(o) and all(isinstance(v, (int, float, np.generic)) for v in o):
            out[name] = np.array(o)
        else:
            for i, v in enumerate(o):
                flatten(v, f"{name}/{i}", out, seen)
    elif isinstance(o, dict):
        out[name + "/keys"] = sorted(map(str, o))
        for k, v in o.items():
            flatten(v, f"{name}/{k}", out, seen)
    elif isinstance(o, (types.FunctionType, types.MethodType, type)):
        pass
    elif type(o).__module__.startswith(("zoidberg", "lib.fields")):
        if id(o) in seen:
            return out
        seen.add(id(o))
        for k, v in sorted(vars(o).items()):
            if not k.startswith("_"):
                flatten(v, f"{name}.{k}", out, seen)
    return out


def differences(a, b):
    """Names of the entries that differ"""
    bad = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            bad.append(k)
            continue
        u, v = a[k], b[k]
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            if np.shape(u) != np.shape(v) or not np.array_equal(u, v, equal_nan=np.asarray(u).dtype.kind in "fc"):
                bad.append(k)
        elif not (u == v or (u != u and v != v)):
            bad.append(k)
    return bad


# ------------------------------------------------------------------ workflows
def _setup(rng, kind=None, ny=None, f=None):
    g = grids.random_grid(rng, kind=kind, ny=int(rng.integers(2, 4)) if ny is None else ny, uniform=True)
    spec = fields.random_spec(rng, [f] if f else ["slab", "ellipse", "screw", "custom", "straight"], *BOX, length=1.0)
    return g, spec


def boundary(rng, call, vary):
    from zoidberg import boundary as b

    t = np.sort(rng.uniform(0, 2 * np.pi, 7))
    px, pz = 1.1 + 0.4 * np.cos(t), 0.4 * np.sin(t)
    x, z = rng.uniform(0.5, 1.7, (3, 5)), rng.uniform(-0.6, 0.6, (3, 5))
    out = {}
    for i, o in enumerate(
        [b.NoBoundary(), call(b.RectangularBoundaryXZ, 0.8, 1.4, -0.3, 0.3), call(b.PolygonBoundaryXZ, vary(px), vary(pz))]
    ):
        out[f"outside{i}"] = call(o.outside, vary(x, lists=False), 0.3, vary(z, lists=False))
    return out


def tracing(rng, call, vary):
    import zoidberg as zb

    _, spec = _setup(rng)
    f = fields.build(spec)
    shape = [(), (4,), (2, 3)][int(rng.integers(3))]
    x, z = rng.uniform(0.9, 1.3, shape), rng.uniform(-0.2, 0.2, shape)
    y = np.cumsum(rng.uniform(0.1, 0.3, 4)) * rng.choice([-1, 1])
    out = {}
    t = call(zb.fieldtracer.FieldTracer, f)
    out["adaptive"] = call(t.follow_field_lines, vary(x), vary(z), vary(y))
    out["rtol"] = call(t.follow_field_lines, vary(x), vary(z), vary(y), rtol=1e-9)
    r = call(zb.fieldtracer.FieldTracerReversible, f, nsteps=int(rng.integers(3, 8)))
    out["reversible"] = call(r.follow_field_lines, vary(x), vary(z), vary(y))
    c = call(zb.fieldtracer.CachingFieldTracer, t)
    if shape:
        for i in range(2):
            out[f"cached{i}"] = call(c.follow_field_lines, vary(x, lists=False), vary(z, lists=False), vary(y, lists=False))
    ys = rng.permutation(np.array([0.0, 0.3, 0.7, 0.5]))
    # Note: sequences of planes are arrays or lists
    out["poincare"] = call(zb.fieldtracer.trace_poincare, f, vary(np.atleast_1d(x)), vary(np.atleast_1d(z)), 1.0, y_slices=vary(ys), revs=3)
    out["poincare2"] = call(zb.fieldtracer.trace_poincare, f, vary(np.atleast_1d(x)), vary(np.atleast_1d(z)), 1.0, nplot=2, revs=2)
    return out


def integer_tracing(rng, call, vary):
    import zoidberg as zb

    spec = dict(type="custom", flow="rotation", p=[float(rng.uniform(-0.2, 0.2)), 2.0, 1.0], R=None)
    f = fields.build(spec)
    x, z = rng.integers(1, 5, (2, 3)), rng.integers(-2, 3, (2, 3))
    y = np.array([0, 1, 3])
    out = {}
    for n, t in dict(a=zb.fieldtracer.FieldTracer(f), r=zb.fieldtracer.FieldTracerReversible(f)).items():
        out[n] = call(t.follow_field_lines, vary(x), vary(z), vary(y))
    from zoidberg import diff

    a = rng.integers(0, 9, (6, 7))
    for k in (0, 1):
        out[f"c2{k}"] = call(diff.c2, vary(a, lists=False), k, periodic=bool(k))
        out[f"c4{k}"] = call(diff.c4, vary(a, lists=False), k, periodic=bool(k))
    return out


def differencing(rng, call, vary):
    from zoidberg import diff

    out = {}
    a = rng.normal(size=(7, 6, 5))
    for k in range(3):
        for p in (False, True):
            out[f"c2{k}{p}"] = call(diff.c2, vary(a, lists=False), k, periodic=p)
            out[f"c4{k}{p}"] = call(diff.c4, vary(a, lists=False), k, periodic=p)
    y = np.linspace(0, 1, 7)
    RZ = 1 + 0.1 * rng.normal(size=(7, 3, 2))
    out["length"] = call(diff.field_line_length, vary(RZ, lists=False), vary(y))
    return out


def lines(rng, call, vary):
    from zoidberg import rzline
    from zoidberg.spectralline import SpectralLine

    out = {}
    c = curves.random_curve(rng, 0.5, int(rng.integers(16, 40)))
    R, Z = curves.points(c)
    line = call(rzline.RZline, vary(R, lists=False), vary(Z, lists=False), anticlockwise=bool(rng.random() < 0.8))
    out["line"] = line
    th = rng.uniform(-7, 14, 9)
    out["position"] = call(line.position, vary(th))
    out["polygon"] = call(line.positionPolygon, vary(th, lists=False))
    out["R1"] = call(line.Rvalue, vary(th), deriv=1)
    out["Z1"] = call(line.Zvalue, vary(th), deriv=1)
    out["distance"] = call(line.distance, sample=5)
    w = rng.uniform(0.5, 2, len(R))
    out["equal"] = call(line.equallySpaced, n=int(rng.integers(8, 30)))
    out["weighted"] = call(line.equallySpaced, weights=vary(w, lists=False))
    out["closest"] = [call(line.closestPoint, 2.3, 0.4), call(line.closestPoint, 2.0, 0.9)]
    p = rng.permutation(len(R))
    for k in ("line_from_points", "line_from_points_two_opt"):
        out[k] = call(getattr(rzline, k), vary(R[p], lists=False), vary(Z[p], lists=False))
    s = call(SpectralLine, line, 4)
    out["spectral"] = [call(s.Rvalue, vary(th, lists=False)), call(s.Zvalue, vary(th, lists=False)), call(s.equallySpaced)]
    return out


def generation(rng, call, vary):
    from zoidberg import poloidal_grid as pg
    from zoidberg import rzline

    out = {}
    ri = rzline.shaped_line(R0=2.0, a=float(rng.uniform(0.3, 0.5)), elong=0.1, n=24)
    ro = rzline.shaped_line(R0=2.0, a=float(rng.uniform(0.9, 1.1)), elong=0.2, triang=0.1, n=24)
    nx, nz = int(rng.integers(5, 8)), int(rng.integers(8, 14))
    out["annulus"] = call(pg.grid_annulus, ri, ro, nx, nz, show=False)
    out["elliptic"] = call(pg.grid_elliptic, ri, ro, nx, nz, show=False)
    return out


def lookup(rng, call, vary):
    from zoidberg import poloidal_grid as pg

    out = {}
    for kind in ("rect", "ann"):
        p = grids.random_grid(rng, kind=kind, ny=1)["planes"][0]
        if kind == "ann":
            x, z = np.meshgrid(np.arange(p["nx"]), np.arange(p["nz"]), indexing="ij")
            R, Z = grids.plane_pos(p, x, z)
            o = call(pg.StructuredPoloidalGrid, vary(R, lists=False), vary(Z, lists=False))
        else:
            o = grids.plane_build(p)
        xi, zi = rng.uniform(1, p["nx"] - 2, (3, 4)), rng.uniform(0, p["nz"] - 1, (3, 4))
        out[kind + "c"] = call(o.getCoordinate, vary(xi, lists=False), vary(zi, lists=False))
        out[kind + "d"] = call(o.getCoordinate, vary(xi, lists=False), vary(zi, lists=False), dx=1)
        R, Z = grids.plane_pos(p, xi, zi)
        out[kind + "i"] = call(o.findIndex, vary(R, lists=False), vary(Z, lists=False))
        R, Z = R + rng.normal(size=R.shape), Z + 0.5 * rng.normal(size=R.shape)
        out[kind + "o"] = call(o.findIndex, vary(R, lists=False), vary(Z, lists=False))
        out[kind + "m"] = call(o.metric)
    return out


def mapping(rng, call, vary):
    """Grid, maps, metric, operators, file"""
    import copy

    import zoidberg as zb
    from zoidberg import stencil_dagp_fv, weights
    from zoidberg.zoidberg import MapWriter, get_metric
    from checks.c17 import read

    g, spec = _setup(rng, kind=["rect", "ann"][int(rng.integers(2))])
    grid = grids.grid_build(g)
    f = fields.build(spec)
    out = {}
    n = int(rng.choice([1, 2]))
    if rng.random() < 0.5:
        out["m0"] = call(grid.metric)
    maps = call(zb.make_maps, grid, f, nslice=int(rng.choice([1, 2])), quiet=QUIET, refine_parallel_integral=2, samples_per_dim=n)
    out["maps"] = copy.deepcopy(maps)
    out["metric"] = call(get_metric, grid, f)
    out["planes"] = [call(grid.getPoloidalGrid, j)[1] for j in (-1, 0, 0.5, 2, 7)]
    out["dagp"] = call(stencil_dagp_fv.doit, [grid.getPoloidalGrid(0)[0]], isSlab=False)
    out["operators"] = call(weights.calculate_parallel_map_operators, maps)
    # modify_maps changes its argument on purpose
    if rng.random() < 0.6:
        maps = copy.deepcopy(maps)
        out["modified"] = copy.deepcopy(weights.modify_maps(maps, partial_boundaries=bool(rng.random() < 0.5)))
    call(zb.write_maps, grid, f, maps, gridfile="f1.nc", metric2d=bool(rng.random() < 0.5), new_names=bool(rng.random() < 0.5), quiet=QUIET)
    with MapWriter("f2.nc", quiet=QUIET, metric2d=bool(rng.random() < 0.5)) as mw:
        call(mw.add_grid_field, grid, f)
        call(mw.add_maps, maps)
        call(mw.write_dict, dict(extra=rng.normal(size=grid.shape)), always3d=bool(rng.random() < 0.5))
        call(mw.add_dagp)
    for fn in ("f1.nc", "f2.nc"):
        v, _, a = read(fn)
        out[fn] = v
    return out


def operators(rng, call, vary):
    from zoidberg import weights

    maps = M.random_maps(rng)
    maps.setdefault("subcell_weights", np.ones(maps["forward_xt_primes"].shape[-1]) / maps["forward_xt_primes"].shape[-1]) if "forward_xt_primes" in maps else None
    return dict(ops=call(weights.calculate_parallel_map_operators, maps))


def field_models(rng, call, vary):
    out = {}
    x, z = rng.uniform(0.9, 1.3, (2, 3)), rng.uniform(-0.2, 0.2, (2, 3))
    for k in ("slab", "curved", "straight", "ellipse", "screw"):
        f = fields.build(fields.random_spec(rng, [k], *BOX, length=1.0))
        for n in ("Bxfunc", "Byfunc", "Bzfunc", "Bmag", "pressure", "Rfunc"):
            r = call(getattr(f, n), vary(x, lists=False), vary(z, lists=False), 0.4)
            out[k + n] = np.array(0.0) if r is None else np.broadcast_to(r, x.shape)
        pos = np.array([1.1, 0.1])
        out[k + "dir"] = call(f.field_direction, vary(pos, lists=False), 0.3)
    return out


def smoothing(rng, call, vary):
    from zoidberg import smooth

    n = int(rng.integers(60, 90))
    t = 2 * np.pi * np.arange(n) / n
    r, z = 2 + np.cos(t), np.sin(t)
    out = dict(none=call(smooth.smooth, vary(r, lists=False), vary(z, lists=False)))
    # a square, corners well inside
    k = 25
    s = np.linspace(-1, 1, k, endpoint=False)
    o = np.ones(k)
    r, z = np.concatenate([s, o, -s, -o]), np.concatenate([-o, s, o, -s])
    sh = k // 2
    r, z = np.roll(r, sh), np.roll(z, sh)
    out["square"] = call(smooth.smooth, vary(r, lists=False), vary(z, lists=False), bounds=5)
    return out


FLOWS = dict(
    boundary=boundary,
    tracing=tracing,
    integer_tracing=integer_tracing,
    differencing=differencing,
    lines=lines,
    generation=generation,
    lookup=lookup,
    mapping=mapping,
    operators=operators,
    field_models=field_models,
    smoothing=smoothing,
)
