bug("C10-snap", "C10", "grid.py", [("if abs(yindexint - yindex) > 1e-6:", "if abs(yindexint - yindex) > 1e-2:")],
 "a fractional index very near to an integer", "y is that of the integer index", '''
import zoidberg as zb
g = zb.grid.rectangular_grid(6, 5, 4, Ly=10.0, yperiodic=True)
for i in (0.5, 3.007, 1.995):
    assert abs(g.getPoloidalGrid(i)[1] - 2 * i) < 1e-9, i
''')
bug("C12-by", "C12", "zoidberg.py", [("        By = magnetic_field.Byfunc(pol_grid.R, pol_grid.Z, ypos)\n        metric[\"g_yy\"]", "        if yindex == 0:\n            By = magnetic_field.Byfunc(pol_grid.R, pol_grid.Z, ypos)\n        metric[\"g_yy\"]")],
 "a field component along y that depends on y, or planes with different grids", "the metric of all planes uses By of the first one", '''
import numpy as np
import zoidberg as zb
class F(zb.field.Slab):
    def Byfunc(self, x, z, phi): return np.full(np.shape(x), 1.0 + 0.3 * np.sin(phi))
g = zb.grid.rectangular_grid(6, 4, 4, Ly=6.0)
f = F(By=1.0, Bz=0.5, Bzprime=0.0)
m = zb.zoidberg.get_metric(g, f)[0]
for j in range(4):
    y = g.getPoloidalGrid(j)[1]
    b = 1 + 0.3 * np.sin(y)
    assert np.allclose(m["g_yy"][:, j], (b * b + 0.25) / b / b), j
''')
bug("C17-post", "C17", "zoidberg.py", [('        for post in "", "_cell_ylow", "_cell_yhigh":\n            name_changes[k + post] = v + post', '        for post in "", "_cell_ylow":\n            name_changes[k + post] = v + post')],
 "old names", "the metric at the upper faces has the new name in the file", '''
import zoidberg as zb
r = zb.zoidberg.update_metric_names({"g_yy_cell_yhigh": 1, "g_yy": 2})
assert set(r) == {"g_22_cell_yhigh", "g_22"}, r
''')
bug("C19-roll", "C19", "stencil_dagp_fv.py", [("    dxR = RZ[:, 2:] - RZ[:, :-2]\n    dxR = 0.5 * (np.roll(dxR, -1, axis=-1) + dxR)", "    dxR = RZ[:, 2:] - RZ[:, :-2]\n    dxR = 0.5 * (np.roll(dxR, 1, axis=-1) + dxR)")],
 "a grid whose radial spacing changes along z", "the flux through the upper faces is not exact for linear functions", '''
import numpy as np
import zoidberg as zb
from zoidberg.stencil_dagp_fv import doit
th = np.linspace(0, 2 * np.pi, 32, endpoint=False)
r = np.linspace(0.5, 1.5, 8)[:, None]
a = 1 + 0.3 * np.cos(th)
p = zb.poloidal_grid.StructuredPoloidalGrid(5 + r * a * np.cos(th), r * np.sin(th))
c = doit([p])
cz = np.array([c["dagp_fv_ZX"][1:-1, 0], c["dagp_fv_ZZ"][1:-1, 0]])
f = p.Z
dx = f[2:] - f[:-2]; dx = 0.5 * (np.roll(dx, -1, -1) + dx)
dz = (np.roll(f, -1, -1) - f)[1:-1]
flux = cz[0] * dx + cz[1] * dz
x = np.arange(6)[:, None] + 0.5; z = np.arange(32)[None] + 0.5 + 0 * x; x = x + 0 * z
R0 = p.getCoordinate(x, z)[0]; R1 = p.getCoordinate(x + 1, z)[0]
ref = 0.5 * (R1 ** 2 - R0 ** 2)
e = min(np.abs(flux - ref).max(), np.abs(flux + ref).max())
assert e < 1e-2 * np.abs(ref).max(), e
''')
bug("C19-wrap", "C19", "stencil_dagp_fv.py", [("    dzR = (np.roll(RZ, -1, axis=-1) - RZ)[:, 1:-1]\n    if Lz is not None:\n        dzR[dzR < -Lz / 2] += Lz", "    dzR = (np.roll(RZ, -1, axis=-1) - RZ)[:, 1:-1]\n    if Lz is not None:\n        dzR[dzR < -Lz * 0.8] += Lz")],
 "rectangular grids with fewer than six points in z", "the coefficients at the periodic edge are wrong", '''
import numpy as np
import zoidberg as zb
from zoidberg.stencil_dagp_fv import doit
for nz in (4, 5, 8, 16):
    p = zb.poloidal_grid.RectangularPoloidalGrid(7, nz, 1.0, 2.0, 5.0, 0.0)
    c = doit([p], isSlab=True)
    for k in ("dagp_fv_ZX", "dagp_fv_ZZ"):
        v = c[k][1:-1, 0]
        assert np.abs(v - v[:, 1:2]).max() < 1e-9, (nz, k)
''')
bug("C25-turn", "C25", "field.py", [("    def Bzfunc(self, x, z, phi):\n        phi = np.mod(phi, 2.0 * np.pi)\n        return self.bz_interp((x, z, phi))", "    def Bzfunc(self, x, z, phi):\n        return self.bz_interp((x, z, np.mod(phi, 2.0 * np.pi + 1e-9)))")],
 "lines followed for many turns", "the vertical field is that of a slightly different angle after each turn, or zero", '''
import numpy as np
import zoidberg as zb
from scipy.interpolate import RegularGridInterpolator as I
v = zb.field.VMEC.__new__(zb.field.VMEC)
r = np.linspace(1, 2, 5); z = np.linspace(-1, 1, 5); t = np.linspace(0, 2 * np.pi, 9)
a = np.random.default_rng(0).random((5, 5, 9)); a[..., -1] = a[..., 0]
v.bz_interp = v.br_interp = v.bphi_interp = I((r, z, t), a, bounds_error=False, fill_value=0.0)
for f in (v.Bxfunc, v.Byfunc, v.Bzfunc):
    for p in (0.3, 4.0):
        assert np.abs(f(np.array([1.3]), np.array([0.2]), p + 2 * np.pi * 1000) - f(np.array([1.3]), np.array([0.2]), p)).max() < 1e-8
        assert f(np.array([1.3]), np.array([0.2]), -1e-10) > 0
''')
bug("C22-len", "C22", "diff.py", [("    y_fine = y_inter(np.linspace(0, 1, (len(y_coords) - 1) * refine + 1))", "    y_fine = y_inter(np.linspace(0, 1, len(y_coords) * refine, endpoint=False))")],
 "any line", "the last bit of the line is left out: lengths are not additive", '''
import numpy as np
from zoidberg.diff import field_line_length
y = np.linspace(0, 1, 41)
rz = np.stack((3 + 0.1 * np.sin(y), np.cos(y)), -1)[:, None]
L = field_line_length(rz, y); a = field_line_length(rz[:21], y[:21]); b = field_line_length(rz[20:], y[20:])
assert abs(L - a - b).max() < 1e-6, (L, a + b)
''')
bug("C01-size1", "C01", "fieldtracer.py", [("        if x_values.shape != z_values.shape:\n            # Make the scalar", "        if x_values.size != z_values.size:\n            # Make the scalar")],
 "start arrays of the same size but different shape", "mismatched start points are paired up in memory order instead of being refused", '''
import numpy as np
from zoidberg import field, fieldtracer
t = fieldtracer.FieldTracer(field.Slab())
try:
    t.follow_field_lines(np.ones((2, 3)), np.ones((3, 2)), [0.0, 1.0])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("C02-start", "C02", "fieldtracer.py", [("                x_pos += dxdy * dy\n                z_pos += dzdy * dy\n                y_pos += dy\n", "                y_pos += dy\n                x_pos = x_half + 0.5 * self.field_direction((x_half, z_half), y_pos)[0] * dy\n                z_pos = z_half + 0.5 * self.field_direction((x_half, z_half), y_pos)[1] * dy\n                if np.amax((x_pos - x_half) ** 2 + (z_pos - z_half) ** 2) < rtol:\n                    continue\n")],
 "small steps", "short steps are not iterated and so are not reversible to the tolerance", '''
import numpy as np
from zoidberg import field, fieldtracer
class F(field.MagneticField):
    def Bxfunc(self, x, z, phi): return np.sin(3 * z) + 0 * x
    def Byfunc(self, x, z, phi): return np.full(np.shape(x), 1.0)
    def Bzfunc(self, x, z, phi): return np.cos(3 * x) + 0 * z
t = fieldtracer.FieldTracerReversible(F(), rtol=1e-4, nsteps=200)
y = np.linspace(0, 2, 3)
x0 = np.array([0.3]); z0 = np.array([0.1])
a = t.follow_field_lines(x0, z0, y)
# every step satisfies the trapezoidal rule much better than it would without iterating
r = fieldtracer.FieldTracerReversible(F(), rtol=1e-20, nsteps=200).follow_field_lines(x0, z0, y)
e = np.abs(a - r).max()
assert e < 2e-9, e
''')
bug("C26-sect", "C26", "zoidberg.py", [("    midpoints = np.linspace(0, 1, upscale_factor, endpoint=False)", "    midpoints = np.arange(0, 1, 1.0 / upscale_factor)")],
 "a factor such as 49, for which rounding gives one more value", "fails", '''
import numpy as np
from zoidberg.zoidberg import upscale
nx, ny, nz = 5, 2, 5
i = np.mgrid[0:nx, 0:ny, 0:nz].astype(float)
r = upscale(i[0], dict(forward_xt_prime=i[0], forward_zt_prime=i[2]), upscale_factor=49)
assert r.shape == (nx, 49 * ny, nz)
''')
