bug("C01-order-k", "C01", "fieldtracer.py", [("            x_values = x_values.flatten()\n            z_values = z_values.flatten()\n", '            x_values = x_values.ravel(order="K")\n            z_values = z_values.ravel(order="K")\n')],
 "two-dimensional start arrays that are not in C order (transposed views, np.meshgrid(...).T, Fortran order)",
 "start points are traced in memory order but returned in C order: lines are permuted among the points", '''
import numpy as np
from zoidberg import field, fieldtracer
f = field.StraightStellarator(I_coil=0.2, radius=1.0, yperiod=10.0)
t = fieldtracer.FieldTracer(f)
x, z = np.meshgrid(np.linspace(0.1, 0.3, 4), np.linspace(-0.1, 0.1, 3))
a = t.follow_field_lines(x.T, z.T, [0, 1.0])
b = t.follow_field_lines(x.T.copy(), z.T.copy(), [0, 1.0])
assert np.allclose(a[0, ..., 0], x.T) and np.allclose(a[0, ..., 1], z.T), "start points"
assert np.allclose(a, b, atol=1e-6), np.abs(a - b).max()
''')
bug("C01-chunk-rtol", "C01", "fieldtracer.py", [("                odeint(self.field_direction, chunk, y_values, args=(True,), rtol=rtol)\n                for chunk in chunks", "                odeint(self.field_direction, chunk, y_values, args=(True,))\n                for chunk in chunks")],
 "a thousand or more start points and an accuracy tighter than the default", "the requested accuracy is ignored when the points are traced in chunks", '''
import numpy as np
from zoidberg import field, fieldtracer
f = field.StraightStellarator(I_coil=0.1, radius=1.0, yperiod=2.0)
t = fieldtracer.FieldTracer(f)
r = np.random.RandomState(0)
x = r.uniform(-0.2, 0.2, 1500); z = r.uniform(-0.2, 0.2, 1500)
ref = t.follow_field_lines(x[:20], z[:20], [0, 10.0], rtol=1e-12)
a = t.follow_field_lines(x, z, [0, 10.0], rtol=1e-12)
assert np.abs(a[:, :20] - ref).max() < 2e-8, np.abs(a[:, :20] - ref).max()
''')
bug("C02-amin", "C02", "fieldtracer.py", [("if np.amax(dx**2 + dz**2) < rtol:", "if np.amin(dx**2 + dz**2) < rtol:")],
 "several lines traced together by the reversible tracer, one of which converges at once (e.g. lies on the axis) while another one does not",
 "the Newton iteration stops when the first line converges: the other lines neither obey the trapezoidal rule nor can be retraced", '''
import numpy as np
from zoidberg import field, fieldtracer
class F(field.MagneticField):
    def Bxfunc(self, x, z, phi): return -z * (1 + 3 * x**2) * x**2
    def Bzfunc(self, x, z, phi): return x**3 * (1 + 2 * z**2)
    def Byfunc(self, x, z, phi): return np.ones(np.shape(x))
t = fieldtracer.FieldTracerReversible(F(), rtol=1e-14, nsteps=3)
x = np.array([0.0, 1.2]); z = np.array([0.0, 0.3])
a = t.follow_field_lines(x, z, [0, 0.6])
b = t.follow_field_lines(x[1:], z[1:], [0, 0.6])
assert np.allclose(a[:, 1:], b, atol=1e-9), np.abs(a[:, 1:] - b).max()
back = t.follow_field_lines(a[1, :, 0], a[1, :, 1], [0.6, 0])
assert np.allclose(back[1], a[0], atol=1e-6), np.abs(back[1] - a[0]).max()
''')
bug("C03-first", "C03", "fieldtracer.py", [("n * yperiod + y_values[:nplot])", "n * yperiod + y_values[:nplot] - y_values[0])")],
 "planes given by y_slices of which none is at 0, two or more revolutions", "from the second revolution on the planes are shifted by the first one", '''
import numpy as np
from zoidberg import field, fieldtracer
f = field.StraightStellarator(I_coil=0.2, radius=1.0, yperiod=10.0)
c, y = fieldtracer.trace_poincare(f, np.array([0.2]), np.array([0.05]), 10.0, y_slices=[1.0, 4.0], revs=4, nover=10)
t = fieldtracer.FieldTracer(f)
ys = (np.arange(4)[:, None] * 10.0 + np.array([1.0, 4.0])).ravel()
ref = t.follow_field_lines(np.array([0.2]), np.array([0.05]), ys, rtol=1e-10)
assert np.allclose(c.reshape(8, 2), ref[:, 0], atol=1e-4), np.abs(c.reshape(8, 2) - ref[:, 0]).max()
''')
bug("C04-hash", "C04", "fieldtracer.py", [('cachename="_zoidberg_cache_tracing_%10.10s"', 'cachename="_zoidberg_cache_tracing_%2.2s"')],
 "a cache directory with many different requests of the same size, e.g. one per plane", "different requests share a cache file, so a request gets the positions of another one", '''
import numpy as np
from zoidberg import field, fieldtracer
f = field.Slab()
t = fieldtracer.FieldTracer(f); c = fieldtracer.CachingFieldTracer(t)
for i in range(300):
    x = np.array([0.1 + i * 1e-3]); z = np.array([0.2])
    a = c.follow_field_lines(x, z, np.array([0, 1.0])); b = t.follow_field_lines(x, z, np.array([0, 1.0]))
    assert np.allclose(a, b), (i, a, b)
''')
bug("C05-bndry-y", "C05", "zoidberg.py", [("""                    # Check boundary defined by the field
                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
                    xind[outside] = -1""", """                    # Check boundary defined by the field
                    outside = magnetic_field.boundary.outside(xcoord, ycoord, zcoord)
                    xind[outside] = -1""")],
 "a boundary that depends on y (limiter at some planes only)", "lines are marked as hitting the boundary of the plane they start on rather than the plane they reach", '''
import numpy as np, zoidberg as zb
from zoidberg import field, grid
class Lim:
    def outside(self, x, y, z): return np.full(np.shape(x), abs(y - 2.5) < 0.1) & (np.asarray(x) > 0.5)
f = field.Slab(); f.boundary = Lim()
g = grid.rectangular_grid(8, 4, 4, Ly=10.0, yperiodic=True)
print(g.ycoords)
g2 = grid.rectangular_grid(8, 4, 4, Lx=1.0, xcentre=0.5, Ly=10.0, yperiodic=True)
m = zb.make_maps(g2, f, quiet=True)
R = m["forward_R"]; x = m["forward_xt_prime"]
for j in range(4):
    hit = (R[:, j] > 0.5) & ((j + 1) % 4 == 1)
    assert np.array_equal(x[:, j] == -1, hit | (np.abs(x[:, j] + 1) < 1e-9) & ~(R[:, j] > -0.0)), (j, x[:, j], hit)
''')
bug("C06-gauss", "C06", "zoidberg.py", [("        ws *= 0.5  # Sum should now be 1\n", "        ws = np.full(samples_per_dim, 1.0 / samples_per_dim)\n")],
 "three or more samples per dimension (for two the weights are equal anyway)", "the sub-cell weights are uniform although the points are Gauss points, so the quadrature is not exact", '''
import numpy as np, zoidberg as zb
from zoidberg import field, grid
g = grid.rectangular_grid(6, 3, 4, Ly=10.0, yperiodic=True)
m = zb.make_maps(g, field.Slab(), quiet=True, samples_per_dim=3)
w = m["subcell_weights"]; xs = m["forward_xt_primes"][3, 0, 1]
xo = xs - 3.0
for k, e in ((0, 1), (1, 0), (2, 1 / 12), (4, 1 / 80)):
    assert abs(np.sum(w * xo**k) - e) < 1e-6, (k, np.sum(w * xo**k), e)
''')
bug("C07-threshold", "C07", "weights.py", [('        "has_boundary_leg": np.any(hits_boundary_mask),', '        "has_boundary_leg": boundary_fraction > 0.05,')],
 "sub-cell maps of which only samples with small quadrature weight hit the boundary (a corner of the cell with 3x3 or more samples)", "a cell with a small part in the boundary gets no boundary leg: its leg weights do not add up to one", '''
import numpy as np
from zoidberg import weights
from scipy.special import roots_legendre
x, w = roots_legendre(4); w = w / 2
W = np.outer(w, w).ravel()
nx, ny, nz = 8, 2, 3
R = np.zeros((nx, ny, nz))
xt = np.tile(np.arange(nx)[:, None, None, None] + 0.0, (1, ny, nz, 16)); zt = np.tile(np.arange(nz)[None, None, :, None] + 0.0, (nx, ny, 1, 16))
xt = np.clip(xt, 2, nx - 3); xt[3, 1, 1, 0] = -1
m = dict(R=R, MXG=2, forward_xt_primes=xt, forward_zt_primes=zt, backward_xt_primes=np.clip(xt, 2, nx), backward_zt_primes=zt, subcell_weights=W)
o = weights.calculate_parallel_map_operators(m)
i, b = o["forward_leg_interior_number"][3, 1, 1], o["forward_leg_boundary_number"][3, 1, 1]
assert i >= 0 and b >= 0, (i, b)
assert abs(o["forward_leg_weights"][i] + o["forward_leg_weights"][b] - 1) < 1e-12
''')
bug("C08-small", "C08", "weights.py", [("            if abs(x_weight) < 1e-10:", "            if abs(x_weight) < 1e-3:")],
 "a mapped position very close to (but not on) a grid surface", "small interpolation weights are dropped, so the rows do not sum to one", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 10, 3, 6
x, y, z = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
xt = np.clip(x + 1.5e-3, 2, nx - 3.0); zt = z + 0.3
m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_prime=xt, forward_zt_prime=zt, backward_xt_prime=xt, backward_zt_prime=zt)
o = weights.calculate_parallel_map_operators(m)
s = np.add.reduceat(o["forward_weights"], o["forward_rows"][:-1])
assert np.allclose(s, 1, atol=1e-7), np.abs(s - 1).max()
''')
bug("C08-ylast", "C08", "weights.py", [("""                col = cell_number[
                    np.clip(x_base + x_offset, 0, nx - 1),
                    (y + y_offset + ny) % ny,""", """                col = cell_number[
                    np.clip(x_base + x_offset, 0, nx - 1),
                    min(max(y + y_offset, 0), ny - 1) if ny > 8 else (y + y_offset + ny) % ny,""")],
 "more than eight planes, and the last (forward) or first (backward) plane", "lines leaving through the periodic seam are interpolated on the plane they started from", '''
import numpy as np
from zoidberg import weights
for ny in (3, 9, 12):
    nx, nz = 8, 4
    x, y, z = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    xt = np.clip(x + 0.0, 2, nx - 3.0)
    m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_prime=xt, forward_zt_prime=z, backward_xt_prime=xt, backward_zt_prime=z)
    o = weights.calculate_parallel_map_operators(m)
    f = np.zeros(o["total_cells"]); f[o["cell_number"].ravel()] = y.ravel()
    for d, s in ("forward", 1), ("backward", -1):
        r = np.add.reduceat(o[d + "_weights"] * f[o[d + "_columns"]], o[d + "_rows"][:-1])
        n = o[d + "_leg_interior_number"]
        assert np.allclose(r[n[n >= 0]], ((y + s) % ny)[n >= 0]), (ny, d)
''')
bug("C09-break", "C09", "weights.py", [("                            if hits_radial_boundary(xts[i, j, k, w], nx, mxg):\n                                xt[i, j, k] = -1\n                                break", "                            if not mxg <= xts[i, j, k, w] <= nx - mxg:\n                                xt[i, j, k] = -1\n                                break")],
 "partial boundaries with a sample ending between nx-MXG-1 and nx-MXG, i.e. in the outermost half guard cell", "such a cell has a boundary leg but its map is not marked", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 8, 2, 3
x, y, z = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
xt = np.clip(x + 0.0, 2, nx - 3.0); xs = np.repeat(xt[..., None], 4, -1); zs = np.repeat(z[..., None] + 0.0, 4, -1)
xs[4, 1, 1, 2] = nx - 2 - 0.6
def mk(): return dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_prime=xt.copy(), forward_zt_prime=z + 0.0, backward_xt_prime=xt.copy(), backward_zt_prime=z + 0.0,
    forward_xt_primes=xs.copy(), forward_zt_primes=zs.copy(), backward_xt_primes=xs.copy(), backward_zt_primes=zs.copy(), subcell_weights=np.full(4, 0.25))
o = weights.modify_maps(mk())
assert np.array_equal(o["forward_leg_boundary_number"] >= 0, (o["forward_xt_prime"] == -1) & (o["forward_leg_boundary_number"] >= -1) & (x >= 2) & (x < nx - 2))
assert o["forward_xt_prime"][4, 1, 1] == -1
''')
bug("C10-wraps", "C10", "grid.py", [("            nperiods = np.floor(yindex / float(ny))\n", "            nperiods = 1 if yindex >= ny else -1\n")],
 "an index more than one period away (parallel slices on a grid with few planes)", "y advances by one period only however often the index wraps", '''
import numpy as np
from zoidberg import grid
g = grid.rectangular_grid(8, 3, 4, Ly=6.0, yperiodic=True)
for i in range(-12, 13):
    assert abs(g.getPoloidalGrid(i)[1] - 2.0 * i) < 1e-12, (i, g.getPoloidalGrid(i)[1])
''')
bug("C11-outer", "C11", "poloidal_grid.py", [("            out_boundary = xind > (nx - 1.5)\n            mask", "            out_boundary = xind > (nx - 2.0)\n            mask")],
 "a point up to half a cell beyond the last surface but one", "points that are still inside are marked as outside", '''
import numpy as np
from zoidberg import rzline, poloidal_grid
g = poloidal_grid.grid_annulus(rzline.circle(3.0, 0.5, 40), rzline.circle(3.0, 1.0, 40), 10, 40, show=False)
x = np.array([7.7, 8.2, 5.3]); z = np.array([3.4, 17.6, 8.2])
R, Z = g.getCoordinate(x, z)
a, b = g.findIndex(R, Z)
assert np.allclose(a, x, atol=1e-4) and np.allclose(b, z, atol=1e-4), (a, b)
''')
bug("C12-rmaj", "C12", "zoidberg.py", [("            Rmaj[:, yindex, :] = magnetic_field.Rfunc(pol_grid.R, pol_grid.Z, ypos)\n", "            if yindex == 0:\n                Rslice = magnetic_field.Rfunc(pol_grid.R, pol_grid.Z, ypos)\n            Rmaj[:, yindex, :] = Rslice\n")],
 "a field with a major radius and a different poloidal grid on each plane", "g_yy and gyy are those of the first plane", '''
import numpy as np, zoidberg as zb
from zoidberg import rzline, poloidal_grid, grid, field
from zoidberg.zoidberg import get_metric
i = rzline.circle(3.0, 0.4, 40)
a = poloidal_grid.grid_annulus(i, rzline.circle(3.0, 1.0, 40), 8, 40, show=False)
th = np.linspace(0, 2 * np.pi, 40, endpoint=False)
o = rzline.RZline(3.0 + np.cos(th) - 0.2 * np.sin(th) ** 2, 1.3 * np.sin(th))
b = poloidal_grid.grid_annulus(i, o, 8, 40, show=False)
g = grid.Grid([a, b], [0, 1.0], 2.0, yperiodic=True)
f = field.Screwpinch(xcentre=3.0)
m, _ = get_metric(g, f)
for j, p in enumerate((a, b)):
    R = f.Rfunc(p.R, p.Z, g.ycoords[j]); ref = (R * f.Bmag(p.R, p.Z, 0) / f.Byfunc(p.R, p.Z, 0)) ** 2
    assert np.allclose(m["g_yy"][:, j], ref), j
''')
