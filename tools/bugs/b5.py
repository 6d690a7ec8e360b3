bug("C17-pressure", "C17", "zoidberg.py", [("magnetic_field.pressure(pol_grid.R, pol_grid.Z, ypos)", "magnetic_field.pressure(pol_grid.R, pol_grid.Z, 0.0)")],
 "a field whose pressure depends on y", "the pressure in the file is that of the plane y = 0", '''
import numpy as np
import zoidberg as zb
class F(zb.field.Slab):
    def pressure(self, x, z, phi): return np.full(np.shape(x), 1.0 + phi)
g = zb.grid.rectangular_grid(6, 3, 4, Ly=1.0)
f = F(By=1.0, Bz=0.0, Bzprime=0.0)
p = zb.zoidberg.get_metric(g, f)[0]["pressure"]
for j in range(3): assert np.allclose(p[:, j], 1 + g.getPoloidalGrid(j)[1]), j
''')
bug("C02-mean", "C02", "fieldtracer.py", [("if np.amax(dx**2 + dz**2) < rtol:", "if np.mean(dx**2 + dz**2) < rtol:")],
 "many start points, few of which need more iterations than the others", "the step of these points is not converged and they do not return", '''
import numpy as np
from zoidberg import field, fieldtracer
class F(field.MagneticField):
    def Bxfunc(self, x, z, phi): return np.where(np.abs(x) < 1, 0 * x, np.sin(40 * x))
    def Byfunc(self, x, z, phi): return np.full(np.shape(x), 1.0)
    def Bzfunc(self, x, z, phi): return 0 * x
t = fieldtracer.FieldTracerReversible(F(), rtol=1e-6, nsteps=1)
x = np.append(np.zeros(20000), 1.60); z = 0 * x
y = [0.0, 0.03]
a = t.follow_field_lines(x, z, y)[1]
b = t.follow_field_lines(x[-1:], z[-1:], y)[1]
e = np.abs(a[-1] - b[0]).max()
assert e < 1e-7, e
''')
bug("C01-sign", "C01", "field.py", [("if np.amin(np.abs(By)) < 1e-8:", "if np.amin(By) < 1e-8:")],
 "a field against the direction of y", "field lines of such fields are refused", '''
import numpy as np
from zoidberg import field, fieldtracer
f = field.Slab(By=-1.0, Bz=0.1, Bzprime=0.2)
r = fieldtracer.FieldTracer(f).follow_field_lines(np.array([0.1]), np.array([0.2]), [0.0, 1.0])
assert np.allclose(r[1, 0], [0.1, 0.2 - 0.1 - 0.02])
''')
bug("C08-drop", "C08", "weights.py", [("            if abs(x_weight) < 1e-10:\n                continue\n            for z_offset", "            if abs(x_weight) < 1e-3:\n                continue\n            for z_offset")],
 "a line that ends very near to, but not on, a grid point in x", "small weights are left out, so that the row no longer sums to one", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 9, 1, 5
x = np.zeros((nx, ny, nz)) + 4.0005; z = np.zeros((nx, ny, nz)) + 2.3
m = dict(R=x, Z=z, MXG=2, MYG=1)
for d in ("forward", "backward"):
    m[d + "_xt_prime"], m[d + "_zt_prime"] = x, z
r = weights.calculate_parallel_map_operators(m)
w, rows = np.asarray(r["forward_weights"]), np.asarray(r["forward_rows"])
s = np.array([w[a:b].sum() for a, b in zip(rows[:-1], rows[1:])])
assert np.abs(s - 1).max() < 1e-9, s
''')
bug("C07-mean", "C07", "weights.py", [("boundary_fraction = float(np.sum(subcell_weights[hits_boundary_mask]))", "boundary_fraction = float(np.mean(hits_boundary_mask))")],
 "at least three samples per dimension, some of which leave", "the fraction of the cell that leaves is the fraction of the samples, not of their weight", '''
import numpy as np
from zoidberg import weights
w = np.array([5, 8, 5]) / 18
w = np.outer(w, w).ravel()
x = np.full(9, 4.0); x[:3] = -1
c = weights.classify_leg_contributions(x, w, 9, 2)
assert abs(c["boundary_fraction"] - w[:3].sum()) < 1e-12
assert abs(c["boundary_fraction"] + c["interior_fraction"] - 1) < 1e-12
''')
bug("C27-outer", "C27", "plot.py", [('out_boundary = maps["backward_xt_prime"][:, yslice, :] > nx - 0.5', 'out_boundary = maps["forward_xt_prime"][:, yslice, :] > nx - 0.5')],
 "maps with different points leaving through the outer edge in the two directions", "the plot of the backward map marks the points that leave forwards", '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np
import zoidberg as zb
from zoidberg import plot
g = zb.grid.rectangular_grid(6, 3, 4, yperiodic=True)
m = {}
for d in ("forward", "backward"):
    m[d + "_R"] = np.random.rand(6, 3, 4); m[d + "_Z"] = np.random.rand(6, 3, 4); m[d + "_xt_prime"] = np.full((6, 3, 4), 2.0)
m["backward_xt_prime"][5, 1] = 6
plot.plot_backward_map(g, m, 1)
o = [l for l in plt.gca().lines if "Outer" in l.get_label()][0]
assert len(o.get_xdata()) == 4, len(o.get_xdata())
''')
bug("C27-right", "C27", "plot.py", [("z_ = np.append(z_, result[:, 1])", "z_ = np.append(result[:, 1], z_)")],
 "a right click after another click in an interactive plot", "the points shown combine R of one line with Z of the other", '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np
from matplotlib.backend_bases import MouseEvent
from zoidberg import field, plot
f = field.Slab(By=1.0, Bz=0.0, Bzprime=0.0)
fig, ax = plot.plot_poincare(f, np.array([0.0, 1.0]), np.array([0.0, 1.0]), 1.0, nplot=2, revs=2, interactive=True)
fig.canvas.draw()
for p, b in (((0.2, 0.3), 1), ((0.7, 0.8), 3)):
    ev = MouseEvent("button_press_event", fig.canvas, *ax.transData.transform(p), button=b)
    fig.canvas.callbacks.process("button_press_event", ev)
    fig.canvas.draw()
pts = [l.get_xydata() for l in ax.lines if l.get_marker() == "o"][-1]
d = pts[:, 1] - pts[:, 0]
assert len(pts) == 8 and np.abs(d - 0.1).max() < 0.02, pts
''')
bug("C18-first", "C18", "zoidberg.py", [("            B0 = Bs[len(Bs) // 2]\n", "            B0 = Bs[0]\n")],
 "a field whose strength changes along the line", "the volume is that of the flux tube through the lower face instead of the centre", '''
import numpy as np
import zoidberg as zb
class F(zb.field.MagneticField):
    def Bxfunc(self, x, z, phi): return 0 * x
    def Bzfunc(self, x, z, phi): return 0 * x
    def Byfunc(self, x, z, phi): return (1 + 0.3 * np.sin(phi)) + 0 * x
    def Rfunc(self, x, z, phi): return x
g = zb.grid.rectangular_grid(6, 4, 4, xcentre=2.0, Ly=2.0)
m = zb.make_maps(g, F(), quiet=True)
y = np.array([g.getPoloidalGrid(j)[1] for j in range(4)])
h = 0.25
from scipy.integrate import quad
for j in range(4):
    I = quad(lambda p: (1 + 0.3 * np.sin(y[j])) / (1 + 0.3 * np.sin(p)), y[j] - h, y[j] + h)[0] / (2 * h)
    assert np.allclose(m["J"][:, j], I * m["R"][:, j], rtol=1e-3), j
''')
