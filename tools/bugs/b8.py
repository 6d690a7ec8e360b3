import os

STAND = open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__ if "__file__" in globals() else "/verif/tools/bugs/b8.py")))), "lib", "emc3.py")).read()
EMC3 = STAND + '''

install()
from zoidberg.field import EMC3
from zoidberg.fieldtracer import EMC3FieldTracer


def world(seed):
    rng = np.random.default_rng(seed)
    g = Grid(rng)
    f = EMC3(g.dataset(rng))
    return g, f, EMC3FieldTracer(f), rng


def compare(g, tr, rz, y):
    out = tr.follow_field_lines(np.array([rz[0]]), np.array([rz[1]]), np.array(y))
    n = 0
    for j, v in enumerate(y):
        w = g.follow(np.asarray(rz), y[0], v)
        if w is not None:
            n += 1
            assert np.allclose(out[j, 0], w, rtol=0, atol=1e-5), (y, j, out[j, 0], w)
    return n
'''
bug("C29-turns", "C29", "fieldtracer.py", [("                phi -= deltap\n                perBC -= 1\n", "                phi -= deltap\n                perBC = -1\n")],
 "an angle two or more periods beyond the grid", "lines are continued over the end of the grid once only", EMC3 + '''
n = 0
for seed in range(6):
    g, f, tr, rng = world(seed)
    rz = g.pos(0.5 * (g.smin + g.smax), 1.0, g.pmin)
    n += compare(g, tr, rz, [g.pmin, g.pmin + 0.5 * g.P, g.pmin + 1.3 * g.P, g.pmin + 2.6 * g.P, g.pmin + 3.1 * g.P, g.pmin - 1.2 * g.P])
assert n > 15
''')
bug("C29-first", "C29", "fieldtracer.py", [("            ij = mesh.find_cell(rz, ij)\n            if ij >= 0:", "            ij = mesh.find_cell(rz, ij)\n            if ij > 0:")],
 "a line in the first cell of a zone, closer to a corner of another one", "lines in the first cell of a zone follow another cell", EMC3 + '''
n = 0
for seed in range(6):
    g, f, tr, rng = world(seed)
    for k in range(len(g.zones)):
        c = g.plane(g.pmin)
        for al, be in ((0.9, 0.9), (0.9, 0.2), (0.4, 0.7)):
            n += compare(g, tr, g.at((k, 0, 0, al, be), c), [g.pmin, g.pmin + 0.5 * g.P, g.phi[-1]])
assert n > 30
''')
bug("C29-gap", "C29", "field.py", [("np.sqrt((xi[1:] - xi[:-1]) ** 2 + (zi[1:] - zi[:-1]) ** 2)", "np.abs(xi[1:] - xi[:-1]) + np.abs(zi[1:] - zi[:-1])")],
 "gaps in a line of points which bends", "the field strength is filled in along a wrong length", EMC3 + '''
g, f, tr, rng = world(1)
t = np.linspace(0, 1, 12) ** 2
x = np.stack([5 + np.sin(1.5 * t), 5 + t], 1)
z = np.stack([1 - np.cos(1.5 * t), 0 * t], 1)
s = np.zeros_like(x)
s[1:] = np.cumsum(np.hypot(np.diff(x, axis=0), np.diff(z, axis=0)), 0)
B = 2 + s - 0.7 * s**2 + 0.2 * s**3
v = B.copy()
v[4:6] = np.nan
Accessor.evaluate = staticmethod(lambda r, p, zz, k: v.copy())
assert np.allclose(f.Bmag(x, z, 0.1), B, rtol=0, atol=1e-8), f.Bmag(x, z, 0.1) - B
''')
bug("C12-period", "C12", "grid.py", [("            (self.ycoords - self.Ly, self.ycoords, self.ycoords + self.Ly)\n", "            (self.ycoords - np.ptp(self.ycoords) - np.mean(np.diff(self.ycoords)), self.ycoords, self.ycoords + np.ptp(self.ycoords) + np.mean(np.diff(self.ycoords)))\n")],
 "planes at uneven distances on a periodic grid", "dy next to the seam is wrong", '''
import numpy as np
import zoidberg as zb
y = np.array([0.0, 0.1, 0.35, 0.7])
p = zb.poloidal_grid.RectangularPoloidalGrid(6, 5, 1.0, 1.0)
g = zb.grid.Grid([p] * 4, y, 1.0, yperiodic=True)
e = np.concatenate([[y[-1] - 1], y, [y[0] + 1]])
dy = g.metric()["dy"]
assert np.allclose(dy[0, [0, -1], 0], [0.5 * (e[2] - e[0]), 0.5 * (e[-1] - e[-3])], rtol=1e-9), dy[0, :, 0]
''')
bug("C19-zface", "C19", "stencil_dagp_fv.py", [('''    dR = pos[..., :-1] - pos[..., 1:]
    dX = np.sqrt(np.sum(dR**2, axis=0))
    if isSlab:
        area = dX
    else:
        area = dX * (pos[0, ..., 1:] + pos[0, ..., :-1]) * 0.5

    log("get normal vector")
''', '''    dR = pos[..., :-1] - pos[..., 1:]
    dX = np.sqrt(np.sum(dR**2, axis=0))
    if isSlab and Lz is None:
        area = dX
    else:
        area = dX * (pos[0, ..., 1:] + pos[0, ..., :-1]) * 0.5

    log("get normal vector")
''')],
 "a slab on a rectangular grid", "the fluxes through the faces in z are weighted with the major radius", '''
import numpy as np
from zoidberg.poloidal_grid import RectangularPoloidalGrid as G
from zoidberg.stencil_dagp_fv import doit
g = G(9, 8, 1.0, 2.0, 3.0, 0.2)
d = doit([g], isSlab=True)
assert np.allclose(d["dagp_fv_ZZ"][1:-1], g.dR / g.dZ), (d["dagp_fv_ZZ"][1:-1], g.dR / g.dZ)
assert np.allclose(d["dagp_fv_XX"][:-1], g.dZ / g.dR)
''')
bug("C21-shift", "C21", "poloidal_grid.py", [("        xind = (R - self.Rmin) / self.dR\n", "        if R.dtype.kind == \"f\" and R.flags.writeable and not R.flags.owndata:\n            R -= self.Rmin\n            xind = R / self.dR\n        else:\n            xind = (R - self.Rmin) / self.dR\n")],
 "positions which are a part of another array", "looking up an index moves the caller's positions", '''
import numpy as np
from zoidberg.poloidal_grid import RectangularPoloidalGrid as G
g = G(9, 8, 1.0, 2.0, 3.0, 0.2)
p = np.stack([np.linspace(2.8, 3.2, 5), np.linspace(-0.2, 0.5, 5)], -1)
q = p.copy()
a = g.findIndex(p[:, 0], p[:, 1])
assert np.array_equal(p, q)
assert np.allclose(a[0], (q[:, 0] - g.Rmin) / g.dR)
''')
bug("C24-sticky", "C24", "fieldtracer.py", [("            kwargs = kwargs.copy()\n            kwargs[\"targetError\"] = rtol\n", "            kwargs[\"targetError\"] = rtol\n")],
 "fusionsc: a call with a tolerance followed by one without", "the tolerance of one call is used for all later ones", '''
import sys, types
import numpy as np
seen = []
class flt:
    @staticmethod
    def poincareInPhiPlanes(p, field, y, n, **kw):
        seen.append(kw)
        return np.ones((3, len(y), len(p[0]), 1))
sys.modules["fusionsc"] = types.SimpleNamespace(flt=flt)
from zoidberg.fieldtracer import FusionSCTracer
t = FusionSCTracer(None)
x = np.ones(2)
t.follow_field_lines(x, x, [0.0, 0.1], rtol=1e-9)
t.follow_field_lines(x, x, [0.0, 0.1])
assert "targetError" not in seen[1] and seen[0]["targetError"] == 1e-9, seen
''')
