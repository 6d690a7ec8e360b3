"""C27: what the plots show"""
import numpy as np

from lib import curves, fields, grids
from lib.harness import rng_of

PROPERTY = "C27"
LEVEL = "exploration"
REPEAT = 6
TECHNIQUE = "runtime monitoring: the artists that the plotting functions leave in the figure are compared with the traced lines, the maps and the grids; mouse events are injected"
RULE = (
    "Poincare plots (1 to 20 planes, given or counted, one or several lines, mouse clicks left, right, middle and outside), 3D plots of one or several lines, "
    "forward and backward maps of every plane, animations, streamlines, grids and lines, on random fields, grids and maps, drawn without a display. "
    "The points in the figure are compared with the data. Non-trivial: at least one point drawn."
)
ASSUMPTIONS = ["matplotlib is used with the Agg backend", "the maps of planes without a neighbour are not drawn"]


def cases(tier, rng):
    out = []
    n = 1 if tier == "quick" else 8
    for i in range(40 * n):
        out.append(dict(kind="poincare", nplot=[1, 2, 3, 6, 7, 12, 13, 20][i % 8], how=["count", "slices"][i // 8 % 2]))
    for i in range(24 * n):
        out.append(dict(kind="clicks", nplot=[1, 3, 7][i % 3]))
    for i in range(16 * n):
        out.append(dict(kind="3d", lines=[0, 1, 2, 5][i % 4]))
    for i in range(40 * n):
        out.append(dict(kind="map", direction=["forward", "backward"][i % 2]))
    for i in range(12 * n):
        out.append(dict(kind="anim"))
    for i in range(12 * n):
        out.append(dict(kind="stream", width=i % 2 == 1))
    for i in range(12 * n):
        out.append(dict(kind="shape"))
    out.append(dict(kind="without"))
    return out


def drawn(ax):
    """All points in the axes: list of (colour, marker, label, points [n, 2])"""
    from matplotlib.colors import to_hex

    out = []
    for a in ax.lines:
        if a.get_visible():
            out.append((to_hex(a.get_color()), a.get_marker(), a.get_label(), np.array(a.get_xydata(), float)))
    for a in ax.collections:
        if hasattr(a, "get_offsets") and a.get_visible() and len(a.get_facecolor()):
            out.append((to_hex(a.get_facecolor()[0]), "o", a.get_label(), np.array(a.get_offsets(), float)))
    return out


def sort(p):
    p = np.asarray(p, float).reshape(-1, 2)
    q = np.round(p, 7) + 0.0
    return p[np.lexsort((q[:, 1], q[:, 0]))]


def same(m, got, want, what, **k):
    """The same points in any order"""
    got, want = np.asarray(got, float).reshape(-1, 2), np.asarray(want, float).reshape(-1, 2)
    m.saw("points drawn", len(got))
    m.interesting(len(got))
    if got.shape == want.shape and len(got):
        from scipy.spatial import cKDTree

        # every point of either set is in the other one
        tol = 1e-6 + 2e-5 * np.ptp(want)
        m.check(np.all(np.isfinite(got)), what + ": finite")
        m.close(cKDTree(want).query(got)[0], np.zeros(len(got)), what, rtol=0, atol=tol)
        m.close(cKDTree(got).query(want)[0], np.zeros(len(got)), what, rtol=0, atol=tol)
    else:
        m.equal(got.shape, want.shape, what + ": number of points")


def run(case, m):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    shown = []
    keep = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        dict(poincare=poincare, clicks=clicks, map=maps, anim=anim, stream=stream, shape=shape, without=without, **{"3d": line3d})[case["kind"]](case, m, rng_of(case), plt)
        m.check(len(shown) > 0 or case["kind"] == "without", "the plot is shown")
    finally:
        plt.show = keep
        plt.close("all")


def some_field(rng, P):
    return fields.random_spec(rng, ["slab", "straight", "custom", "ellipse"], (0.8, 1.4), (-0.3, 0.3), length=P)


def start(rng, n):
    x = rng.uniform(0.9, 1.3, max(n, 1))
    z = rng.uniform(-0.2, 0.2, max(n, 1))
    return (float(x[0]), float(z[0])) if n == 0 else (x, z)


def poincare(case, m, rng, plt, interactive=False):
    from zoidberg import fieldtracer, plot

    P = float(rng.uniform(0.3, 1.5))
    n = case["nplot"]
    spec = some_field(rng, 4 * P)
    m.note("field", spec)
    f = fields.build(spec)
    x, z = start(rng, int(rng.integers(0, 4)))
    revs = int(rng.integers(2, 5))
    kw = dict(nplot=n)
    ys = np.arange(n) * P / n
    if case.get("how") == "slices":
        ys = np.sort(rng.choice(np.arange(1, 60), n, replace=False) * P / 60)
        kw = dict(y_slices=list(ys))
    fig, ax = plot.plot_poincare(f, x, z, P, revs=revs, nover=int(rng.integers(2, 8)), interactive=interactive, **kw)
    planes = (np.arange(revs)[:, None] * P + ys).ravel()
    X, Z = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(z))
    # the line starts on the first plane
    ref = fields.trace(spec, X, Z, planes).reshape(revs, n, len(X), 2)
    got = {}
    for c, mk, lab, p in drawn(ax):
        got.setdefault(c, []).append(p)
    leg = ax.get_legend()
    from matplotlib.colors import to_hex

    texts = [t.get_text() for t in leg.get_texts()]
    handles = getattr(leg, "legend_handles", None) or leg.legendHandles
    cols = [to_hex(h.get_color()) for h in handles]
    m.equal(len(texts), n, "one entry in the legend per plane", stop=True)
    want = {}
    for i in range(n):
        m.check("{0:.2f}".format(ys[i]) in texts[i], "label of the plane", got=texts[i], want=ys[i])
        want.setdefault(cols[i], []).append(ref[:, i])
    m.check(len(want) == min(n, 6) or len(want) > 6, "planes have different colours", n=len(want))
    for c, w in want.items():
        if c not in got:
            m.fail("no points in the colour of the plane", colour=c)
            continue
        same(m, np.concatenate(got[c]), np.concatenate([np.reshape(a, (-1, 2)) for a in w]), "points of the planes of a colour")
    m.saw("planes", n)
    return fig, ax, f, spec, P, ys, revs


def clicks(case, m, rng, plt):
    from matplotlib.backend_bases import MouseButton, MouseEvent

    fig, ax, f, spec, P, ys, revs = poincare(dict(case, how=["count", "slices"][int(rng.integers(2))]), m, rng, plt, interactive=True)
    fig.canvas.draw()
    base = {id(a) for a in ax.lines if len(a.get_xdata()) > 0}
    planes = (np.arange(revs)[:, None] * P + ys).ravel()
    expect = np.zeros((0, 2))
    xl, zl = ax.get_xlim(), ax.get_ylim()
    for step in range(6):
        b = [MouseButton.LEFT, MouseButton.RIGHT, MouseButton.MIDDLE, MouseButton.RIGHT, MouseButton.LEFT][int(rng.integers(5))]
        if rng.random() < 0.15:
            px = (1, 1)  # outside of the axes
            out = True
        else:
            out = False
            xl, zl = ax.get_xlim(), ax.get_ylim()
            x = np.clip(rng.uniform(0.9, 1.3), xl[0] + 0.02 * np.ptp(xl), xl[1] - 0.02 * np.ptp(xl))
            z = np.clip(rng.uniform(-0.2, 0.2), zl[0] + 0.02 * np.ptp(zl), zl[1] - 0.02 * np.ptp(zl))
            px = ax.transData.transform((x, z))
        ev = MouseEvent("button_press_event", fig.canvas, *px, button=b)
        if out and ev.xdata is not None:
            continue
        xd, zd = ev.xdata, ev.ydata
        fig.canvas.callbacks.process("button_press_event", ev)
        if not out:
            if b == MouseButton.MIDDLE:
                expect = np.zeros((0, 2))
            else:
                t = fields.trace(spec, np.array([xd]), np.array([zd]), planes)[:, 0]
                expect = t if b == MouseButton.LEFT else np.concatenate([expect, t])
        new = [a.get_xydata() for a in ax.lines if id(a) not in base and len(a.get_xdata()) > 0]
        got = np.concatenate(new) if new else np.zeros((0, 2))
        same(m, got, expect, "points shown after a click", button=int(b))
        m.saw("clicks")


def line3d(case, m, rng, plt):
    from zoidberg import plot

    P = float(rng.uniform(0.3, 1.0))
    cycles, res = int(rng.integers(1, 4)), int(rng.integers(2, 12))
    spec = some_field(rng, cycles * P)
    m.note("field", spec)
    x, z = start(rng, case["lines"])
    fig, ax = plot.plot_3d_field_line(fields.build(spec), x, z, P, cycles=cycles, y_res=res)
    y = np.arange(cycles * res) * P / res
    X, Z = np.atleast_1d(x), np.atleast_1d(z)
    ref = fields.trace(spec, X, Z, y)
    want = [
        np.stack([ref[c * res : (c + 1) * res, l, 0], ref[c * res : (c + 1) * res, l, 1], np.arange(res) * P / res], -1)
        for c in range(cycles)
        for l in range(len(X))
    ]
    got = [np.stack(np.broadcast_arrays(*a.get_data_3d()), -1) for a in ax.lines]
    m.equal(len(got), len(want), "one line per cycle and field line", stop=True)
    key = lambda a: (round(a[0, 0], 5), round(a[0, 1], 5))  # noqa
    left = list(got)
    for w in want:
        i = int(np.argmin([np.max(np.abs(a[0] - w[0])) for a in left]))
        m.close(left.pop(i), w, "points of a line", rtol=0, atol=2e-5)
    m.saw("points drawn", cycles * res * len(X))
    m.interesting()


def maps(case, m, rng, plt):
    from zoidberg import plot

    g = grids.random_grid(rng, ny=int(rng.integers(1, 5)), nx=int(rng.integers(5, 9)))
    ny = len(g["y"])
    R, Z = grids.coords(g)
    d = case["direction"]
    off = 1 if d == "forward" else -1
    js = [j for j in range(ny) if g["periodic"] or 0 <= j + off < ny]
    if not js:
        g["periodic"] = True
        js = [0]
    grid = grids.grid_build(g)
    j = int(rng.choice(js))
    nx = R.shape[0]
    x = rng.uniform(0, nx - 1, R.shape)
    x[rng.random(R.shape) < 0.2] = -1
    x[rng.random(R.shape) < 0.2] = nx
    mp = {}
    for s in ("forward", "backward"):
        mp[s + "_R"], mp[s + "_Z"], mp[s + "_xt_prime"] = rng.uniform(0, 3, R.shape), rng.uniform(-1, 1, R.shape), x if s == d else rng.uniform(1, 2, R.shape)
    keep = {k: v.copy() for k, v in mp.items()}
    kw = dict(yslice=j) if j or rng.random() < 0.5 else {}
    plt.figure()
    (plot.plot_forward_map if d == "forward" else plot.plot_backward_map)(grid, mp, **kw)
    ax = plt.gca()
    A = {lab: (c, mk, p) for c, mk, lab, p in drawn(ax)}
    k = (j + off) % ny
    r, z = mp[d + "_R"][:, j], mp[d + "_Z"][:, j]
    want = dict(
        grid=np.stack([R[:, k], Z[:, k]], -1),
        map=np.stack([r, z], -1),
        inner=np.stack([r, z], -1)[x[:, j] < 0],
        outer=np.stack([r, z], -1)[x[:, j] > nx - 0.5],
    )
    got = {}
    for lab, (c, mk, p) in A.items():
        for key, word in dict(grid="grid points", map=d + " map", inner="inner", outer="outer").items():
            if word in lab.lower():
                got[key] = p
                if key in ("grid", "map"):
                    m.check(str(j + off if key == "grid" else j) in lab, "slice in the label", got=lab)
    for key in want:
        if key not in got:
            m.fail("not drawn: " + key)
            continue
        same(m, got[key], want[key], "points: " + key)
    texts = {t.get_text() for t in ax.get_legend().get_texts()}
    m.equal(len(texts), 4, "legend")
    for k in keep:
        m.equal(mp[k], keep[k], "maps unchanged")


def anim(case, m, rng, plt):
    from zoidberg import plot

    nf, nx, ny = int(rng.integers(1, 6)), int(rng.integers(2, 7)), int(rng.integers(2, 7))
    X, Y = np.sort(rng.uniform(0, 1, nx)), np.sort(rng.uniform(0, 1, ny))
    U, V = rng.normal(size=(nf, nx, ny)), rng.normal(size=(nf, nx, ny))
    if rng.random() < 0.5:
        X, Y = np.meshgrid(X, Y)
    a = plot.AnimateVectorField(X, Y, U, V)
    Xg, Yg = (X, Y) if np.ndim(X) == 2 else np.meshgrid(X, Y)

    def now(i):
        q = a.quiv_plot
        m.close(np.asarray(q.U).ravel(), U[i].T.ravel(), "U of the frame", rtol=1e-12)
        m.close(np.asarray(q.V).ravel(), V[i].T.ravel(), "V of the frame", rtol=1e-12)
        m.close(np.asarray(q.get_offsets()), np.stack([Xg.ravel(), Yg.ravel()], -1), "positions of the arrows", rtol=1e-12)
        m.saw("frames")
        m.saw("points drawn", q.U.size)

    now(0)
    a.animate()
    m.interesting()
    seq = list(a.animation.new_frame_seq())
    m.equal(seq, list(range(nf)), "frames of the animation")
    for i in [int(v) for v in rng.permutation(nf)]:
        a.animation._draw_frame(i)
        now(i)
    a.animation._draw_was_started = True  # nothing is to be displayed


def stream(case, m, rng, plt):
    from zoidberg import plot

    g = grids.random_grid(rng, kind="rect", ny=int(rng.integers(1, 4)), nx=int(rng.integers(8, 14)), nz=int(rng.integers(8, 14)))
    spec = fields.random_spec(rng, ["custom", "straight"], length=g["Ly"])
    m.note("field", spec)
    j = int(rng.integers(len(g["y"])))
    w = float(rng.uniform(1, 5)) if case["width"] else None
    fig, ax = plot.plot_streamlines(grids.grid_build(g), fields.build(spec), y_slice=j, width=w, density=0.5)
    R, Z = grids.coords(g)
    R, Z = R[:, j], Z[:, j]
    Bx, _, Bz, _ = fields.components(spec)(R, Z, g["y"][j])
    from scipy.interpolate import RegularGridInterpolator as I

    ib = [I((R[:, 0], Z[0]), np.broadcast_to(b, R.shape), bounds_error=False, fill_value=None) for b in (Bx, Bz)]
    poly = [np.asarray(s) for c in ax.collections for s in (c.get_segments() if hasattr(c, "get_segments") else [])]
    seg = np.concatenate([np.stack([s[:-1], s[1:]], 1) for s in poly])
    d = seg[:, 1] - seg[:, 0]
    mid = 0.5 * (seg[:, 0] + seg[:, 1])
    b = np.stack([i(mid) for i in ib], -1)
    L, B = np.hypot(*d.T), np.hypot(*b.T)
    scale = np.array([np.ptp(R), np.ptp(Z)])
    ok = (L > 1e-4 * np.max(scale)) & (B > 0.2 * np.max(B))
    m.saw("segments", np.sum(ok))
    m.interesting(np.any(ok))
    sin = (d[:, 0] * b[:, 1] - d[:, 1] * b[:, 0])[ok] / (L * B)[ok]
    if np.any(ok):
        m.check(np.median(np.abs(sin)) < 0.1, "streamlines follow the field", got=np.median(np.abs(sin)))
        m.check(np.mean(np.sum(d * b, -1)[ok] > 0) > 0.95, "streamlines run along the field")
    if w:
        lw = np.concatenate([np.atleast_1d(c.get_linewidths()) for c in ax.collections if hasattr(c, "get_segments")])
        if len(lw) == len(seg):
            mag = np.hypot(*[np.broadcast_to(v, R.shape) for v in (Bx, Bz)])
            want = w * np.hypot(*[i(mid) for i in ib]) / mag.max()
            m.close(lw[ok] / w, want[ok] / w, "line widths", rtol=0.25, atol=0.25)


def shape(case, m, rng, plt):
    from zoidberg import rzline

    g = grids.random_grid(rng, ny=1)
    pol = grids.plane_build(g["planes"][0])
    R, Z = grids.coords(g)
    R, Z = R[:, 0], Z[:, 0]
    _, ax = plt.subplots()
    m.check(pol.plot(axis=ax) is ax, "the given axis is used")
    lines = [p for _, _, _, p in drawn(ax)]
    want = [np.stack([R[:, k], Z[:, k]], -1) for k in range(R.shape[1])] + [np.stack([R[i], Z[i]], -1) for i in range(R.shape[0])]
    m.equal(sorted(map(len, lines)), sorted(map(len, want)), "grid lines", stop=True)
    same(m, np.concatenate(lines), np.concatenate(want), "grid lines")
    same(m, np.concatenate([p[[0, -1]] for p in lines]), np.concatenate([p[[0, -1]] for p in want]), "ends of grid lines")
    R, Z = curves.points(curves.random_curve(rng, 1.0, int(rng.integers(8, 40))))
    l = rzline.RZline(R, Z)
    ax = l.plot()
    A = drawn(ax)
    dots = [p for c, mk, _, p in A if mk not in ("None", "", None, " ")]
    m.equal(len(dots), 1, "points of the line", stop=True)
    same(m, dots[0], np.stack([R, Z], -1), "points of the line")
    cont = [p for c, mk, _, p in A if mk in ("None", "", None, " ")]
    r, z = curves.spline(*curves.anticlockwise(R, Z))
    for p in cont:
        m.close(p[0], p[-1], "the curve is closed", rtol=1e-9, atol=1e-9)
        m.check(len(p) > 30, "resolution of the curve")
        d = curves.project(r, z, p[:, 0], p[:, 1])[0]
        m.close(d, 0 * d, "curve through the points", rtol=0, atol=2e-2)


WITHOUT = """
import sys, warnings
for k in ("matplotlib", "matplotlib.pyplot", "matplotlib.animation"):
    sys.modules[k] = None
sys.path.insert(0, sys.argv[1])
warnings.simplefilter("ignore")
import numpy as np
import zoidberg as zb
from zoidberg import field, grid, plot, rzline
f = field.Slab()
g = grid.rectangular_grid(6, 2, 4, yperiodic=True)
maps = zb.make_maps(g, f, quiet=True, n_chunks=1)
l = rzline.circle()
calls = dict(
    plot_poincare=lambda: plot.plot_poincare(f, 0.1, 0.1, 1.0, revs=2, nover=2),
    plot_3d_field_line=lambda: plot.plot_3d_field_line(f, 0.1, 0.1, 1.0, cycles=1),
    plot_streamlines=lambda: plot.plot_streamlines(g, f),
    plot_forward_map=lambda: plot.plot_forward_map(g, maps),
    plot_backward_map=lambda: plot.plot_backward_map(g, maps),
    line=lambda: l.plot(),
    grid=lambda: g.getPoloidalGrid(0)[0].plot(),
)
for k, c in calls.items():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = c()
    print("RESULT", k, r is None, any("matplotlib" in str(x.message) for x in w))
"""


def without(case, m, rng, plt):
    """Without matplotlib everything but the plots works, and the plots say so"""
    import subprocess
    import sys

    from lib.harness import REPO

    p = subprocess.run([sys.executable, "-c", WITHOUT, REPO], capture_output=True, text=True, timeout=120)
    m.equal(p.returncode, 0, "works without matplotlib", err=p.stderr[-400:])
    got = [tuple(l.split()[1:]) for l in p.stdout.splitlines() if l.startswith("RESULT")]
    m.equal(len(got), 7, "plots without matplotlib return")
    for k, none, warned in got:
        m.check(none == "True" and warned == "True", "plots without matplotlib warn", plot=k)
    m.interesting()
