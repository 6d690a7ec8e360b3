bug("C16-digamma", "C16", "field.py", [("""            if n <= 0:
                return 0.0
            return (
                alpha(n, b)
                * np.sum([1.0 / i + 1.0 / (b + i) for i in range(1, n + 1)])""", """            if n <= 0:
                return 0.0
            return (
                alpha(n, b)
                * np.sum([1.0 / i + 1.0 / (b + i) for i in range(1, min(n, 2) + 1)])""")],
 "a mode of poloidal order six or more", "the field of high modes is not a vacuum field with the boundary conditions of the potentials", '''
import numpy as np
from zoidberg import field
A = np.zeros((2, 9, 4)); A[0, 7, 2] = 50.0
f = field.DommaschkPotentials(A)
z = np.linspace(-0.3, 0.3, 5)
got = f.Bxfunc(np.ones(5), z, 0.1 * np.ones(5))
# the potential of the Neumann solution has the radial derivative Z^6 / 6! at R = 1
assert np.allclose(got, 50 * z**6 / 720, rtol=1e-6, atol=1e-9), got
''')
bug("C19-curved", "C19", "zoidberg.py", [("isSlab = isinstance(self.field, Slab)", "isSlab = type(self.field).__name__.endswith(\"Slab\")")],
 "a curved slab", "the coefficients of a grid with major radius are those of a straight one", '''
import os, tempfile
import numpy as np
import zoidberg as zb
from zoidberg.zoidberg import MapWriter
from netCDF4 import Dataset
f = zb.field.CurvedSlab(By=1.0, Bz=0.1, xcentre=1.0, Rmaj=3.0, Bzprime=0.0)
g = zb.grid.rectangular_grid(9, 2, 8, 0.5, 1.0, 0.4, xcentre=3.0)
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "g.nc")
    with MapWriter(fn, quiet=True) as mw:
        mw.add_grid_field(g, f)
        mw.add_dagp()
    with Dataset(fn) as D:
        V = np.array(D["dagp_fv_volume"][:])
p = g.poloidal_grids[0]
want = p.dR * p.dZ * p.R
assert np.allclose(V[1:-1, 0], want[1:-1]), (V[1:-1, 0] / want[1:-1])
''')
bug("C08-cut", "C08", "weights.py", [("if abs(x_weight) < 1e-10:", "if abs(x_weight) < 1e-4:")],
 "a mapped position just off a grid point", "weights of the order 1e-4 are dropped and rows do not sum to one", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 9, 2, 5
x, y, z = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
maps = dict(R=np.ones((nx, ny, nz)), MXG=2, subcell_weights=np.ones(1))
xt = np.clip(x + 1.5e-4, 2, nx - 3.0)
for d in ("forward", "backward"):
    maps[d + "_xt_prime"] = xt.copy(); maps[d + "_zt_prime"] = z + 0.3
    maps[d + "_xt_primes"] = xt[..., None].copy(); maps[d + "_zt_primes"] = z[..., None] + 0.3
r = weights.calculate_parallel_map_operators(maps)
w, rows = r["forward_weights"], r["forward_rows"]
s = np.add.reduceat(w, rows[:-1])
assert np.abs(s - 1).max() < 1e-8, s
''')
bug("C12-shared", "C12", "grid.py", [("""        if self._metric_cache:
            return self._metric_cache
""", """        key = (self.shape, self.Ly, self.yperiodic)
        if getattr(Grid, "_last", (None, None))[0] == key:
            return Grid._last[1]
        Grid._last = (key, self._calculate_metric())
        return Grid._last[1]

    def _calculate_metric(self):
""")],
 "two grids of the same size and length, asked for their metric one after the other", "the second grid gets the metric of the first", '''
import zoidberg as zb
a = zb.grid.rectangular_grid(8, 3, 5, Lx=1.0)
b = zb.grid.rectangular_grid(8, 3, 5, Lx=2.0)
da, db = a.metric()["dx"].max(), b.metric()["dx"].max()
assert abs(db - 2 * da) < 1e-12, (da, db)
''')
bug("C13-mean", "C13", "poloidal_grid.py", [("maxchange_sq = np.amax((R - Rold) ** 2 + (Z - Zold) ** 2)", "maxchange_sq = np.mean((R - Rold) ** 2 + (Z - Zold) ** 2)")],
 "curves for which the grid changes in one place only", "the iteration stops before the elliptic equations are solved to the tolerance", '''
import numpy as np
from zoidberg import poloidal_grid as pg, rzline
worst = 0
for n, e in ((16, 0.3), (20, 0.6), (18, 0.1)):
    th = np.linspace(0, 2 * np.pi, 60, endpoint=False)
    inner = rzline.RZline(3 + 0.3 * np.cos(th), 0.3 * np.sin(th))
    rr = 1 + e * 0.3 * np.cos(3 * th)
    outer = rzline.RZline(3 + rr * np.cos(th), rr * np.sin(th)).equallySpaced()
    tol = 1e-8
    R, Z = pg.grid_elliptic(inner, outer, 12, n, tol=tol, return_coords=True)
    dx, dz, f = 1 / 11, 2 * np.pi / n, 10 / 3
    zp = lambda a: np.roll(a, -1, 1); zm = lambda a: np.roll(a, 1, 1)
    Rz, Zz = f * (zp(R) - zm(R))[1:-1] / 2 / dz, f * (zp(Z) - zm(Z))[1:-1] / 2 / dz
    Rx, Zx = (R[2:] - R[:-2]) / 2 / dx, (Z[2:] - Z[:-2]) / 2 / dx
    a, b, c = Rz**2 + Zz**2, Rz * Rx + Zz * Zx, Rx**2 + Zx**2
    def change(q):
        new = a / dx**2 * (q[2:] + q[:-2]) - b / 2 / dx / dz * (zp(q)[2:] - zp(q)[:-2] - zm(q)[2:] + zm(q)[:-2]) + c / dz**2 * (zp(q) + zm(q))[1:-1]
        return new / (2 * a / dx**2 + 2 * c / dz**2) - q[1:-1]
    worst = max(worst, np.max(change(R) ** 2 + change(Z) ** 2) / tol)
assert worst < 1.05, worst
''')
bug("C02-newton", "C02", "fieldtracer.py", [("                while True:\n                    dxdy, dzdy", "                for _ in range(3):\n                    dxdy, dzdy")],
 "long steps in a field that varies strongly, or a tight tolerance", "the iteration ends before the trapezoidal rule holds and lines are not retraced", '''
import numpy as np
from zoidberg.fieldtracer import FieldTracerReversible
class F:
    @staticmethod
    def field_direction(pos, y, flatten=False):
        x, z = pos
        return [np.sin(3 * z) + 0.5 * np.cos(2 * y), np.cos(4 * x) + 0.2 * z]
t = FieldTracerReversible(F, rtol=1e-16, nsteps=1)
rng = np.random.default_rng(1)
x, z = rng.uniform(-1, 1, 200), rng.uniform(-1, 1, 200)
for h in (0.1, 0.2, 0.3, 0.4):
    a = t.follow_field_lines(x, z, [0, h])[1]
    f0 = np.array(F.field_direction((x, z), 0)); f1 = np.array(F.field_direction((a[:, 0], a[:, 1]), h))
    res = np.array([a[:, 0] - x, a[:, 1] - z]) - 0.5 * h * (f0 + f1)
    assert np.abs(res).max() < 1e-7, (h, np.abs(res).max())
''')
bug("C10-mult", "C10", "grid.py", [("nperiods = np.floor(yindex / float(ny))", "nperiods = int(yindex / float(ny)) - (yindex < 0)")],
 "an index that is a negative multiple of the number of planes", "y is a whole period too low there", '''
import zoidberg as zb
g = zb.grid.rectangular_grid(5, 4, 5, Ly=8.0, yperiodic=True)
y = [g.getPoloidalGrid(j)[1] for j in range(-13, 14)]
assert all(abs(b - a - 2.0) < 1e-12 for a, b in zip(y, y[1:])), y
''')
bug("C11-early", "C11", "poloidal_grid.py", [("if extra > 3:", "if extra > 0:")],
 "positions between grid points, compared to better than the square root of the tolerance", "indices are off by the tolerance of the first iteration that is close enough", '''
import numpy as np
from zoidberg.poloidal_grid import StructuredPoloidalGrid as G
th = np.linspace(0, 2 * np.pi, 40, endpoint=False)
r = 1e-3 * np.linspace(0.3, 1, 12)[:, None]
g = G(2 + r * np.cos(th), r * np.sin(th) * 1.3)
rng = np.random.default_rng(0)
x, z = rng.uniform(1, 10, 300), rng.uniform(0, 40, 300)
a, b = g.findIndex(*g.getCoordinate(x, z))
d = np.mod(b - z + 20, 40) - 20
assert max(np.abs(a - x).max(), np.abs(d).max()) < 1e-5, (np.abs(a - x).max(), np.abs(d).max())
''')
