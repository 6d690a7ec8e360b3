bug("C02-rtol", "C02", "fieldtracer.py", [("            rtol = self.rtol  # Value set in __init__\n        rtol = float(rtol)\n", "            rtol = self.rtol  # Value set in __init__\n        rtol = max(float(rtol), self.rtol)\n")],
 "a tolerance for one call that is tighter than the one of the tracer", "the tolerance asked for is ignored, so that the lines are not retraced to within it", '''
import numpy as np
from zoidberg import field, fieldtracer
class F(field.MagneticField):
    def Bxfunc(self, x, z, phi): return 0.3 * np.sin(3 * z + phi) + 0 * x
    def Bzfunc(self, x, z, phi): return 0.3 * np.cos(2 * x - phi) + 0 * x
t = fieldtracer.FieldTracerReversible(F(), rtol=1e-2, nsteps=4)
x, z = np.array([0.1, 0.7, -0.4]), np.array([0.2, -0.3, 0.9])
y = [0.0, 1.0, 2.5]
a = t.follow_field_lines(x, z, y, rtol=1e-24)
b = t.follow_field_lines(a[-1, :, 0], a[-1, :, 1], y[::-1], rtol=1e-24)
e = np.abs(b[-1, :, 0] - x).max() + np.abs(b[-1, :, 1] - z).max()
assert e < 1e-10, e
''')
bug("C03-flat", "C03", "fieldtracer.py", [("    result = np.reshape(result, (revs, nplot) + result.shape[1:])\n", "    result = np.reshape(result, (revs, nplot, -1, 2))\n")],
 "start points in arrays with two or more dimensions", "the shape of the start points is lost", '''
import numpy as np
from zoidberg import field, fieldtracer
x = np.full((2, 3), 0.1); z = np.arange(6.0).reshape(2, 3)
r, y = fieldtracer.trace_poincare(field.Slab(), x, z, 1.0, nplot=2, revs=2, nover=3)
assert r.shape == (2, 2, 2, 3, 2), r.shape
''')
bug("C04-layout", "C04", "fieldtracer.py", [('np.array([arg]).ravel()]).encode()', 'np.ravel(arg, order="K")]).encode()')],
 "the transposed arrays of an earlier request", "a request is answered with the lines of the transposed one", '''
import numpy as np, tempfile, os
from zoidberg import field, fieldtracer
f = field.Slab()
x = np.arange(9.0).reshape(3, 3) / 9; z = x * 2
with tempfile.TemporaryDirectory() as d:
    t = fieldtracer.CachingFieldTracer(fieldtracer.FieldTracer(f), cachename=os.path.join(d, "c%s"))
    t.follow_field_lines(x, z, [0.0, 1.0])
    a = t.follow_field_lines(x.T, z.T, [0.0, 1.0])
b = fieldtracer.FieldTracer(f).follow_field_lines(x.T, z.T, [0.0, 1.0])
assert np.abs(a - b).max() < 1e-6, np.abs(a - b).max()
''')
bug("C05-missing", "C05", "zoidberg.py", [("""                    # No slice grid, so hit a boundary
                    xind = -1
""", """                    # No slice grid, so hit a boundary
                    xind = -1 if parallel_slice.offset <= 1 else nx
""")],
 "two or more parallel slices and a grid that is not periodic", "the forward lines of the further slices have the wrong marker where there is no plane", '''
import numpy as np, zoidberg as zb
m = zb.zoidberg.make_maps(zb.grid.rectangular_grid(5, 4, 3), zb.field.Slab(), nslice=2, quiet=True)
assert np.all(m["forward_xt_prime_2"][:, -2:] == -1), m["forward_xt_prime_2"][:, -2:]
''')
bug("C10-near", "C10", "grid.py", [("        if abs(yindexint - yindex) > 1e-6:\n", "        if abs(yindexint - yindex) > 1e-2:\n")],
 "a fractional index within a hundredth of a plane", "y is that of the plane instead of the interpolated one", '''
import numpy as np
from zoidberg import grid
g = grid.rectangular_grid(5, 4, 5, Ly=8.0, yperiodic=True)
y = g.getPoloidalGrid(1.005)[1]
assert abs(y - 2.01) < 1e-9, y
''')
bug("C15-zout", "C15", "boundary.py", [("np.amax(zarr) + 1.0  # Some", "np.amax(zarr) * 1.5 + 0.1  # Some")],
 "a polygon that lies well below z = 0", "points inside the polygon are reported as outside", '''
import numpy as np
from zoidberg import boundary
b = boundary.PolygonBoundaryXZ(np.array([0.0, 1, 1, 0]), np.array([-10.0, -10, -4, -4]))
x = np.array([0.5, 0.5, 0.5]); z = np.array([-4.2, -5.5, -6.5])
assert not b.outside(x, 0, z).any(), b.outside(x, 0, z)
''')
bug("C15-edge", "C15", "boundary.py", [("np.logical_or(x < self.xmin, x > self.xmax)", "np.logical_or(x <= self.xmin, x > self.xmax)")],
 "a point exactly on the lower limit in x", "a point on the limit is reported as outside", '''
import numpy as np
from zoidberg import boundary
b = boundary.RectangularBoundaryXZ(0.0, 1.0, 0.0, 1.0)
assert not b.outside(np.array([0.0]), 0, np.array([0.5])).any()
''')
bug("C16-fpol", "C16", "field.py", [("        psinorm = np.linspace(0.0, 1.0, nr)\n        self.f_spl", "        psinorm = np.linspace(0.0, 1.0, len(self.fpol), endpoint=len(self.fpol) == nz)\n        self.f_spl")],
 "an equilibrium file with different numbers of points in R and Z", "the flux functions are those of another surface", '''
import numpy as np, os, tempfile
from freeqdsk import geqdsk
from zoidberg import field
nx, ny = 33, 45
R, Z = np.meshgrid(np.linspace(1, 3, nx), np.linspace(-1, 1, ny), indexing="ij")
psi = (R - 2) ** 2 + Z ** 2
th = np.linspace(0, 2 * np.pi, 60)
d = dict(comment="t", shot=0, nx=nx, ny=ny, rdim=2.0, zdim=2.0, rcentr=2.0, rleft=1.0, zmid=0.0, rmagx=2.0, zmagx=0.0, simagx=0.0, sibdry=0.49,
         bcentr=1.0, cpasma=0.0, fpol=4 + np.linspace(0, 1, nx), pres=np.linspace(1, 0, nx), ffprime=np.zeros(nx), pprime=np.zeros(nx), psi=psi, qpsi=np.ones(nx),
         nbdry=60, nlim=4, rbdry=2 + .7 * np.cos(th), zbdry=.7 * np.sin(th), rlim=np.array([1., 3, 3, 1]), zlim=np.array([-1., -1, 1, 1]))
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "g")
    with open(fn, "w") as f: geqdsk.write(d, f)
    g = field.GEQDSK(fn)
r = np.array([2.3])
e = g.Byfunc(r, r * 0, 0.0) * r - (4 + 0.09 / 0.49)
assert np.abs(e).max() < 2e-3, e
''')
bug("C16-domm", "C16", "field.py", [("                if A[i, j, 0] or A[i, j, 1] or A[i, j, 2] or A[i, j, 3] != 0:\n                    U += self.V(", "                if A[i, j, 0] or A[i, j, 1] or A[i, j, 2]:\n                    U += self.V(")],
 "a mode of which only the fourth coefficient is given", "the mode is left out of the field", '''
import numpy as np
from zoidberg import field
A = np.zeros((3, 3, 4)); A[2, 2, 3] = 0.7
f = field.DommaschkPotentials(A)
x = np.array([1.1, 0.9]); z = np.array([0.1, -0.1])
assert np.abs(f.Bxfunc(x, z, 0.3)).max() > 1e-4
''')
bug("C20-fixup", "C20", "stencil_dagp_fv.py", [("    c1 = np.zeros(RZ[0].shape)\n", "    c1 = np.empty(RZ[0].shape)\n")],
 "freshly allocated memory that is not zero", "the coefficients outside of the domain are whatever was in memory", '''
import numpy as np
from zoidberg import poloidal_grid, stencil_dagp_fv as s
s.verbose = 0
g = poloidal_grid.RectangularPoloidalGrid(8, 9, 1.0, 1.0, Rcentre=2.0)
empty = np.empty
def poison(shape, *a, **k):
    r = empty(shape, *a, **k)
    if r.dtype.kind == "f": r.fill(np.nan)
    return r
np.empty = poison
r = s.doit([g])
for k, v in r.items(): assert np.all(np.isfinite(v)), k
''')
