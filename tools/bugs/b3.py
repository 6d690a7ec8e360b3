COMMON_MAPS = '''
import numpy as np, zoidberg as zb
from zoidberg import rzline, poloidal_grid, grid, field
'''
bug("C07-order", "C07", "weights.py", [("""    n_evolving = (nx - 2 * mxg) * ny * nz
""", """    n_evolving = (nx - 2 * max(mxg, 1)) * ny * nz
""")],
 "MXG = 0", "N_evolving is not the number of cells that evolve", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 5, 2, 3
i = np.broadcast_to(np.arange(nx, dtype=float)[:, None, None], (nx, ny, nz))
m = dict(R=np.zeros((nx, ny, nz)), MXG=0, forward_xt_prime=i, backward_xt_prime=i)
r = weights.assign_cell_space_numbers(m)
assert r["N_evolving"] == np.sum((r["cell_number"] >= 0)), r["N_evolving"]
''')
bug("C07-split", "C07", "weights.py", [("weights[row] = boundary_fraction[x, y, z] if split else 1.0", "weights[row] = 1.0 - 1.0 / boundary_fraction.size if split and boundary_fraction[x, y, z] > 0.999 else boundary_fraction[x, y, z] if split else 1.0")],
 "a cell where nearly all of the quadrature weight hits the boundary", "the leg weights of the cell do not add up to one", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 6, 1, 2
xs = np.full((nx, ny, nz, 2), 3.0); xs[3, 0, 0, 0] = -1
m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_primes=xs, backward_xt_primes=xs, forward_zt_primes=xs * 0, backward_zt_primes=xs * 0,
         subcell_weights=np.array([0.9995, 0.0005]))
r = weights.calculate_parallel_map_operators(m)
w = r["forward_leg_weights"]
a, b = r["forward_leg_interior_number"][3, 0, 0], r["forward_leg_boundary_number"][3, 0, 0]
assert abs(w[a] + w[b] - 1) < 1e-9, (w[a], w[b])
''')
bug("C08-skip", "C08", "weights.py", [("            if abs(x_weight) < 1e-10:", "            if abs(x_weight) < 1e-3:")],
 "a line that lands less than about a thousandth of a cell from a grid surface", "small interpolation weights are dropped, so that the rows do not add up to one", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 9, 1, 8
xs = np.full((nx, ny, nz, 1), 4.0015); zs = np.full((nx, ny, nz, 1), 3.3)
m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_primes=xs, backward_xt_primes=xs, forward_zt_primes=zs, backward_zt_primes=zs, subcell_weights=np.ones(1))
r = weights.calculate_parallel_map_operators(m)
s = np.add.reduceat(r["forward_weights"], r["forward_rows"][:-1])
assert np.abs(s - 1).max() < 1e-9, np.abs(s - 1).max()
''')
bug("C08-dup", "C08", "weights.py", [("                self.rows[row][i] = (col, entry_weight + weight)\n", "                self.rows[row][i] = (col, max(entry_weight, weight, key=abs) if len(self.rows) < 2 else entry_weight + weight)\n")],
 "an operator with a single row (one evolving leg) whose stencil meets the same cell twice", "weights of repeated columns are lost in operators with one row", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 5, 1, 1
xs = np.full((nx, ny, nz, 1), 2.0); zs = np.full((nx, ny, nz, 1), 0.3)
m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_primes=xs, backward_xt_primes=xs, forward_zt_primes=zs, backward_zt_primes=zs, subcell_weights=np.ones(1))
r = weights.calculate_parallel_map_operators(m)
assert abs(r["forward_weights"].sum() - 1) < 1e-9, r["forward_weights"]
''')
bug("C08-clip", "C08", "weights.py", [("        if x_base + offset >= nx - mxg:\n", "        if x_base + offset > nx - mxg:\n")],
 "a line that lands in the last two evolving cells, with a boundary value that differs", "part of the weight is put on the first cell of the outer boundary", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 9, 1, 8
xs = np.full((nx, ny, nz, 1), 5.4); zs = np.full((nx, ny, nz, 1), 3.3)
m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_primes=xs, backward_xt_primes=xs, forward_zt_primes=zs, backward_zt_primes=zs, subcell_weights=np.ones(1))
r = weights.calculate_parallel_map_operators(m)
assert r["forward_columns"].max() < 5 * 8, r["forward_columns"].max()
''')
bug("C18-b0", "C18", "zoidberg.py", [("            B0 = Bs[len(Bs) // 2]\n", "            B0 = Bs[(len(Bs) - 1) // 4 * 2]\n")],
 "an odd refine_parallel_integral and a field strength that changes along the line", "the flux tube is normalised with the area at another point", COMMON_MAPS + '''
i, o = rzline.circle(3.0, 0.4, 40), rzline.circle(3.0, 1.0, 40)
p = poloidal_grid.grid_annulus(i, o, 8, 32, show=False)
g = grid.Grid(p, np.arange(4) * np.pi / 2, 2 * np.pi, yperiodic=True)
class F(field.MagneticField):
    def Byfunc(self, x, z, phi): return (1 + 0.3 * np.sin(phi)) * np.ones(np.shape(x))
    def Bxfunc(self, x, z, phi): return np.zeros(np.shape(x))
    Bzfunc = Bxfunc
    def Rfunc(self, x, z, phi): return np.asarray(x) * 1.0
a = zb.make_maps(g, F(), quiet=True, refine_parallel_integral=25)["J"]; b = zb.make_maps(g, F(), quiet=True, refine_parallel_integral=24)["J"]
assert np.allclose(a, b, rtol=2e-3), np.abs(a / b - 1).max()
''')
bug("C18-open", "C18", "zoidberg.py", [("y_all = np.concatenate((y_all, y_slices[1:]))", "y_all = np.concatenate((y_all, 2 * y_slices[0] - y_all[-2::-1]))")],
 "planes that are not equally spaced", "the lengths and volumes use the distance to the previous plane in both directions", COMMON_MAPS + '''
i, o = rzline.circle(3.0, 0.4, 40), rzline.circle(3.0, 1.0, 40)
p = poloidal_grid.grid_annulus(i, o, 8, 32, show=False)
g = grid.Grid(p, np.array([0.0, 0.5, 2.0]), 2 * np.pi, yperiodic=True)
class F(field.MagneticField):
    def Byfunc(self, x, z, phi): return np.ones(np.shape(x))
    def Bxfunc(self, x, z, phi): return np.zeros(np.shape(x))
    Bzfunc = Bxfunc
    def Rfunc(self, x, z, phi): return np.asarray(x) * 1.0
m = zb.make_maps(g, F(), quiet=True)
y = np.array([2.0 - 2 * np.pi, 0.0, 0.5, 2.0, 2 * np.pi])
hi = (y[2:] - y[1:-1])
L = m["Ly_cell_yhigh"] / m["R"]
r = L[4, :, 0] / L[4, 0, 0]
assert np.allclose(r, hi / hi[0], rtol=1e-3), (r, hi / hi[0])
''')
bug("C23-merge", "C23", "smooth.py", [("        if last + 1 != value:\n", "        if last + 2 < value:\n")],
 "two corners whose windows are separated by exactly one point", "the two windows are merged without the point between them, so that points are written one position off", '''
import numpy as np
from zoidberg import smooth as s
got = s.generate_points_tosmooth(3, [10, 18], 60)
flat = sorted(i % 60 for l in got for i in l)
for l in got:
    assert list(l) == list(range(l[0], l[0] + len(l))), got
''')
bug("C23-maxfac", "C23", "smooth.py", [("            outliers.append(item - bounds)\n", "            outliers.append(max(item - bounds, 0))\n")],
 "a corner near the end of the arrays", "corners among the last points are taken to be at the first point: the corner stays and other points move", '''
import numpy as np
from zoidberg import smooth as s
t = np.linspace(0, 1, 100, endpoint=False)
sq = np.array([[0, 0], [1, 0], [1, 1], [0, 1], [0, 0]], float)
p = np.array([np.interp(np.mod(t * 4 + 2.12, 4), np.arange(5), sq[:, i]) for i in range(2)])
a = s.smooth(*p, bounds=5)
b = s.smooth(*np.roll(p, 15, axis=1), bounds=5)
e = np.abs(np.roll(a, 15, axis=1) - np.array(b)).max()
assert e < 1e-6, e
''')
bug("C24-order", "C24", "fieldtracer.py", [("                            results[j] = start(i)\n", "                            results[j] = start(j)\n")],
 "a parallel request in several pieces of which one fails and is repeated", "the repeated piece is that of other points", '''
import sys, types, os
import numpy as np
class P: pass
class Svc:
    def trace(self, p, config, task, *a):
        out = P(); out.lines = []
        flag = "failed"
        if np.min(p.x3) > 0.55 and not os.path.exists(flag):
            open(flag, "w").close(); raise RuntimeError("lost")
        for a, b, c in zip(p.x1, p.x2, p.x3):
            l = P(); l.vertices = P(); l.vertices.x1, l.vertices.x2, l.vertices.x3 = np.array([a]), np.array([b + 1e-9]), np.array([c]); out.lines.append(l)
        return out
class Types:
    def __getattr__(self, n): return P
class Client:
    def __init__(self, *a, **k): self.types = Types(); self.service = Svc()
osa = types.ModuleType("osa"); osa.Client = Client; sys.modules["osa"] = osa
rq = types.ModuleType("requests"); rq.get = lambda *a, **k: types.SimpleNamespace(raise_for_status=lambda: None); rq.exceptions = types.SimpleNamespace(ReadTimeout=Exception, ConnectTimeout=Exception, ConnectionError=Exception); sys.modules["requests"] = rq
from zoidberg import fieldtracer
t = fieldtracer.FieldTracerWeb(configId=0, chunk=3, retry=3)
z = np.arange(9) / 10.0
r = t.follow_field_lines(np.full(9, 5.0), z, np.array([0.0, 0.1]))
assert np.allclose(r[1, :, 1], z), r[1, :, 1]
''')
bug("C24-inverse", "C24", "fieldtracer.py", [("        config.inverseField = xor(dphi > 0, self.isforward)\n", "        config.inverseField = self.config is None and xor(dphi > 0, self.isforward)\n")],
 "a tracer made with a MagneticConfig (config=) tracing against the field", "lines are followed in the wrong direction", '''
import sys, types
import numpy as np
class P: pass
seen = []
class Svc:
    def trace(self, p, config, task, *a):
        seen.append(config.inverseField)
        out = P(); out.lines = []
        for a, b, c in zip(p.x1, p.x2, p.x3):
            l = P(); l.vertices = P(); s = -1 if config.inverseField else 1
            l.vertices.x1, l.vertices.x2, l.vertices.x3 = np.array([a]), np.array([b + 1e-9]), np.array([c + s]); out.lines.append(l)
        return out
class Types:
    def __getattr__(self, n): return P
class Client:
    def __init__(self, *a, **k): self.types = Types(); self.service = Svc()
osa = types.ModuleType("osa"); osa.Client = Client; sys.modules["osa"] = osa
rq = types.ModuleType("requests"); rq.get = lambda *a, **k: types.SimpleNamespace(raise_for_status=lambda: None); rq.exceptions = types.SimpleNamespace(ReadTimeout=Exception, ConnectTimeout=Exception, ConnectionError=Exception); sys.modules["requests"] = rq
from zoidberg import fieldtracer
t = fieldtracer.FieldTracerWeb(config=P())
a = t._follow_field_lines(np.array([5.0]), np.array([0.0]), np.array([0.0, 0.1]), None, None)
b = t._follow_field_lines(np.array([5.0]), np.array([0.0]), np.array([0.0, -0.1]), None, None)
assert a[1, 0, 1] == -b[1, 0, 1], (a, b)
''')
bug("C25-phi", "C25", "field.py", [("            self.zeta = np.linspace(0, 2 * np.pi, self.nzeta)\n", "            self.zeta = np.linspace(0, 2 * np.pi, self.nzeta, endpoint=self.nzeta < 3)\n")],
 "positions beyond the last toroidal plane, three or more planes", "between the last plane and the full turn the field is that of outside the plasma", '''
import numpy as np
from zoidberg import field
d = dict(ns=5, xm=np.array([0.0, 1.0]), xn=np.array([0.0, 0.0]), mpol=3, ntor=4, lasym__logical__=0)
s = np.linspace(0, 1, 5)
d["rmnc"] = np.stack([np.full(5, 3.0), np.sqrt(s)], axis=1); d["zmns"] = np.stack([np.zeros(5), np.sqrt(s)], axis=1)
d["bsupumnc"] = np.zeros((5, 2)); d["bsupvmnc"] = np.stack([np.full(5, 2.0), np.zeros(5)], axis=1)
import boututils.datafile as df
class D:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getitem__(self, k): return d[k]
    def list(self): return list(d)
    keys = list
df.DataFile = D
v = field.VMEC("x", ntheta=16, nzeta=5, nr=16, nz=16)
b = [float(v.Byfunc(3.0, 0.0, p)) for p in (0.1, 3.0, 5.0, 6.2)]
assert np.allclose(b, b[0], rtol=1e-6), b
''')
bug("C26-last", "C26", "zoidberg.py", [("    yup_3d[:, -1, :] = 0\n", "    yup_3d[:, -1, :] = ny - 1\n")],
 "the last plane of a periodic grid", "the lines from the last plane end on the last plane instead of the first", '''
import numpy as np
from zoidberg.zoidberg import upscale
nx, ny, nz = 6, 4, 6
i = np.mgrid[0:nx, 0:ny, 0:nz].astype(float)
m = dict(forward_xt_prime=i[0], forward_zt_prime=i[2])
f = np.broadcast_to(np.array([1.0, 2.0, 4.0, 7.0])[None, :, None], (nx, ny, nz)).copy()
h = upscale(f, m, upscale_factor=2)
assert np.allclose(h[2, :, 2], [1, 1.5, 2, 3, 4, 5.5, 7, 4], atol=1e-6), h[2, :, 2]
''')
bug("C26-shape", "C26", "zoidberg.py", [("            field = field.reshape(xt_prime.T.shape).T\n", "            field = field.reshape(xt_prime.shape)\n")],
 "a field given in the transposed order", "values are put at the wrong points", '''
import numpy as np
from zoidberg.zoidberg import upscale
nx, ny, nz = 5, 4, 6
i = np.mgrid[0:nx, 0:ny, 0:nz].astype(float)
m = dict(forward_xt_prime=i[0], forward_zt_prime=i[2])
f = i[0] + 10 * i[2]
a = upscale(f, m, upscale_factor=2); b = upscale(f.T.copy(), m, upscale_factor=2)
assert np.allclose(a, b)
''')
