bug("C13-inner-extra", "C13", "poloidal_grid.py", [("        dR = R[0] - R[1]\n        dZ = Z[0] - Z[1]\n        R = np.vstack([R[0] + dR[None, :] * dn[:, None], R])", "        dR = R[0] - R[1]\n        dZ = Z[0] - Z[1]\n        R = np.vstack([R[0] + dR[None, :] * dn[::-1][:, None], R])")],
 "two or more extra surfaces inside the inner curve (nx_inner >= 2)", "the extra surfaces have R in the wrong order but Z in the right one: the grid is folded", '''
import numpy as np
from zoidberg import rzline, poloidal_grid
g = poloidal_grid.grid_elliptic(rzline.circle(3.0, 0.5, 40), rzline.circle(3.0, 1.0, 40), 10, 16, nx_inner=2)
r = np.hypot(g.R - 3, g.Z)
assert np.all(np.diff(r, axis=0) > 0), r[:, 0]
''')
bug("C13-coarse-z", "C13", "poloidal_grid.py", [("        R[0, :] = inner.Rvalue(thetavals_inner)\n        Z[0, :] = inner.Zvalue(thetavals_inner)\n", "        R[0, :] = inner.Rvalue(thetavals_inner)\n")],
 "a grid larger than restrict_size (made from a coarser one) between curves that are not circles", "the innermost surface keeps the interpolated Z of the coarse grid and is not on the inner curve", '''
import numpy as np
from zoidberg import rzline, poloidal_grid
i = rzline.shaped_line(R0=3.0, a=0.4, elong=0.3, triang=0.3, n=80); o = rzline.shaped_line(R0=3.0, a=1.0, elong=0.5, triang=0.2, n=80)
g = poloidal_grid.grid_elliptic(i, o, 12, 44)
th = np.linspace(0, 2 * np.pi, 20000); R, Z = i.position(th)
d = [np.min(np.hypot(R - a, Z - b)) for a, b in zip(g.R[0], g.Z[0])]
assert max(d) < 1e-3, max(d)
''')
bug("C14-order1", "C14", "rzline.py", [("            dr = (R - np.roll(R, -1)) ** 2 + (Z - np.roll(Z, -1)) ** 2\n", "            dr = (R - np.roll(R, 1)) ** 2 + (Z - np.roll(Z, 1)) ** 2\n")],
 "a line of spline order 1 with unequal segments", "the distances are those of the previous segment, so equally spaced points are not", '''
import numpy as np
from zoidberg import rzline
th = np.array([0, 0.2, 0.9, 2.0, 2.4, 4.0, 5.0]); l = rzline.RZline(3 + np.cos(th), np.sin(th), spline_order=1)
d = l.distance(); ref = np.hypot(np.diff(np.append(l.R, l.R[0])), np.diff(np.append(l.Z, l.Z[0])))
assert np.allclose(np.diff(d), ref), (np.diff(d), ref)
''')
bug("C14-anticlock", "C14", "rzline.py", [("            A = np.sum((r - np.roll(r, 1)) * (z + np.roll(z, 1)))\n            assert A != 0\n", "            A = np.sum((r - np.roll(r, 1)) * z)\n            assert A != 0\n")],
 "a few points on a strongly asymmetric line, where the one-sided rule for the area has the wrong sign", "the orientation is decided by a first order estimate of the area: lines come out clockwise or are refused", '''
import numpy as np
from zoidberg import rzline
bad = 0
r = np.random.RandomState(1)
for i in range(2000):
    n = r.randint(4, 7)
    th = np.sort(r.uniform(0, 2 * np.pi, n))
    if np.max(np.diff(np.append(th, th[0] + 2 * np.pi))) > 2.5: continue
    x, z = 3 + np.cos(th), 5 + np.sin(th)
    for s in (1, -1):
        l = rzline.RZline(x[::s], z[::s])
        A = np.sum(l.R * np.roll(l.Z, -1) - l.Z * np.roll(l.R, -1))
        assert A > 0
''')
bug("C15-closing", "C15", "boundary.py", [("            ip = (i + 1) % nsegments  # Next point\n", "            ip = min(i + 1, nsegments - 1)  # Next point\n")],
 "a polygon whose closing segment (last to first vertex) is not vertical, and points below it", "the closing segment is missing: points under it are misclassified", '''
import numpy as np
from zoidberg.boundary import PolygonBoundaryXZ
P = np.array([(0, 0), (2, 0), (2, 1), (0, 1.0)])
for k in range(4):
    Q = np.roll(P, k, axis=0)
    b = PolygonBoundaryXZ(Q[:, 0], Q[:, 1])
    o = b.outside(np.array([1.0, 1.0, 3.0, -1.0]), 0.0, np.array([0.5, 1.5, 0.5, 0.5]))
    assert list(o) == [False, True, True, True], (k, o)
''')
bug("C16-zcentre", "C16", "field.py", [("            zcentre + radius * sin(angle + iota * self.phi),\n            current,\n        )\n\n    def __init__(\n        self,\n        xcentre=0.0,\n        zcentre=0.0,\n        radius=0.8,\n        yperiod=np.pi,\n        I_coil=0.05,\n        Btor=1.0,", "            xcentre + radius * sin(angle + iota * self.phi),\n            current,\n        )\n\n    def __init__(\n        self,\n        xcentre=0.0,\n        zcentre=0.0,\n        radius=0.8,\n        yperiod=np.pi,\n        I_coil=0.05,\n        Btor=1.0,")],
 "a rotating ellipse whose xcentre and zcentre differ", "the coils are centred at (xcentre, xcentre)", '''
import numpy as np
from zoidberg import field
a = field.RotatingEllipse(xcentre=2.0, zcentre=0.5, radius=0.8, I_coil=0.4)
x = np.array([2.0]); z = np.array([0.5])
assert abs(a.Bxfunc(x, z, 0.3)) < 1e-12 and abs(a.Bzfunc(x, z, 0.3)) < 1e-12
b = field.RotatingEllipse(xcentre=2.0, zcentre=2.0, radius=0.8, I_coil=0.4)
assert np.allclose(a.Bxfunc(x + 0.1, z + 0.2, 0.3), b.Bxfunc(x + 0.1, np.array([2.2]), 0.3))
''')
bug("C17-attr-plane", "C17", "zoidberg.py", [("                pol_grid, ypos = self.grid.getPoloidalGrid(yindex)\n                attribute[:, yindex, :] = self.field.attributes[name](\n                    pol_grid.R, pol_grid.Z, ypos\n", "                pol_grid, _ = self.grid.getPoloidalGrid(yindex)\n                attribute[:, yindex, :] = self.field.attributes[name](\n                    pol_grid.R, pol_grid.Z, self.grid.ycoords[0]\n")],
 "a field with an attribute that depends on y", "the written attribute is that of the first plane on every plane", '''
import numpy as np, zoidberg as zb
from zoidberg import field, grid
from boututils.datafile import DataFile
f = field.Slab(); f.attributes = dict(psi=lambda x, z, y: np.asarray(x) + 10 * y)
g = grid.rectangular_grid(8, 4, 4, Ly=4.0, yperiodic=True)
m = zb.make_maps(g, f, quiet=True)
zb.write_maps(g, f, m, gridfile="a.nc", quiet=True)
with DataFile("a.nc") as d:
    psi = d["psi"]
for j in range(4):
    assert np.allclose(psi[:, j], g.poloidal_grids[j].R + 10 * g.ycoords[j]), j
''')
bug("C17-slices", "C17", "zoidberg.py", [("            for k in \"RZ\":\n                n = parallel_slice_field_name(k, offset)\n                keep[n] = maps[n]", "            for k in \"RZ\":\n                n = parallel_slice_field_name(k, offset)\n                keep[n] = maps[parallel_slice_field_name(k, max(offset, -1))]")],
 "two or more parallel slices in each direction, and a field whose metric changes along it", "the metrics of the slices beyond the first backward one are those of the first", '''
import numpy as np, zoidberg as zb
from zoidberg import field, grid, rzline, poloidal_grid
from boututils.datafile import DataFile
f = field.Screwpinch(xcentre=3.0, shear=0.05)
pols = [poloidal_grid.grid_annulus(rzline.circle(3.0, 0.3, 40), rzline.shaped_line(3.0, 1.0, elong=0.1 * j, n=40), 8, 16, show=False) for j in range(4)]
g = grid.Grid(pols, np.linspace(0, 2 * np.pi, 4, endpoint=False), 2 * np.pi, yperiodic=True)
m = zb.make_maps(g, f, quiet=True, nslice=2)
zb.write_maps(g, f, m, gridfile="a.nc", quiet=True)
with DataFile("a.nc") as d:
    B = d["backward_B_2"]
ref = f.Bmag(m["backward_R_2"], m["backward_Z_2"], 0.0)
assert np.allclose(B, ref), np.abs(B - ref).max()
''')
bug("C18-metric0", "C18", "zoidberg.py", [("            metric = pol.metric()\n", "            metric = grid.getPoloidalGrid(0)[0].metric()\n")],
 "poloidal grids that differ from plane to plane", "J uses the poloidal area of the first plane", '''
import numpy as np, zoidberg as zb
from zoidberg import field, grid, rzline, poloidal_grid
f = field.Screwpinch(xcentre=3.0, shear=0.0)
pols = [poloidal_grid.grid_annulus(rzline.circle(3.0, 0.3, 40), rzline.shaped_line(3.0, 1.0, elong=0.2 * j, n=40), 8, 16, show=False) for j in range(3)]
g = grid.Grid(pols, np.linspace(0, 2 * np.pi, 3, endpoint=False), 2 * np.pi, yperiodic=True)
m = zb.make_maps(g, f, quiet=True)
for j, p in enumerate(pols):
    q = p.metric(); ref = np.sqrt(q["g_xx"] * q["g_zz"] - q["g_xz"] ** 2) * p.R
    assert np.allclose(m["J"][:, j], ref, rtol=1e-5), j
''')
bug("C18-chunks", "C18", "zoidberg.py", [("        chunks_x = np.array_split(np.arange(0, nx), n_chunks)\n", "        step = max(nx // n_chunks, 1)\n        chunks_x = [np.arange(i, min(i + step, nx)) for i in range(0, step * n_chunks, step) if i < nx]\n")],
 "a number of radial points that is not a multiple of the number of chunks", "the last radial surfaces are in no chunk: J, the lengths and By are never computed there", '''
import numpy as np, zoidberg as zb
from zoidberg import field, grid, rzline, poloidal_grid
f = field.Screwpinch(xcentre=3.0, shear=0.05)
p = poloidal_grid.grid_annulus(rzline.circle(3.0, 0.3, 40), rzline.circle(3.0, 1.0, n=40), 11, 16, show=False)
g = grid.Grid(p, np.linspace(0, 2 * np.pi, 3, endpoint=False), 2 * np.pi, yperiodic=True)
a = zb.make_maps(g, f, quiet=True, n_chunks=1)
for n in (2, 3, 4, 11, 13):
    b = zb.make_maps(g, f, quiet=True, n_chunks=n)
    for k in ("J", "Ly", "By"): assert np.allclose(a[k], b[k], rtol=1e-5), (n, k)
''')
bug("C19-progress", "C19", "zoidberg.py", [("            dagp = doit([pol], isSlab=isSlab)\n", "            prog[0] = ind + 1\n            dagp = doit([pol], isSlab=isSlab)\n"), ("                handles[k][:, ind, :] = v\n            prog[0] = ind + 1\n", "                handles[k][:, ind, :] = v\n")],
 "generation of the coefficients interrupted while a plane is being computed, then resumed", "the plane that was being computed is skipped when resuming", '''
import numpy as np
from zoidberg import field, grid, rzline, poloidal_grid, stencil_dagp_fv
from zoidberg.zoidberg import MapWriter
from boututils.datafile import DataFile
pols = [poloidal_grid.grid_annulus(rzline.circle(3.0, 0.3, 40), rzline.circle(3.0, 1.0 + 0.1 * j, n=40), 8, 12, show=False) for j in range(3)]
g = grid.Grid(pols, np.linspace(0, 2 * np.pi, 3, endpoint=False), 2 * np.pi, yperiodic=True)
f = field.Screwpinch(xcentre=3.0)
with MapWriter("a.nc", quiet=True) as mw:
    mw.add_grid_field(g, f); mw.add_dagp()
org = stencil_dagp_fv.doit; n = [0]
def doit(*a, **k):
    n[0] += 1
    if n[0] == 2: raise KeyboardInterrupt
    return org(*a, **k)
stencil_dagp_fv.doit = doit
with MapWriter("b.nc", quiet=True) as mw:
    mw.add_grid_field(g, f)
    try: mw.add_dagp()
    except KeyboardInterrupt: pass
    mw.add_dagp()
with DataFile("a.nc") as a, DataFile("b.nc") as b:
    for k in a.list():
        if k.startswith("dagp"): assert np.array_equal(a[k], b[k]), k
''')
bug("C20-csr", "C20", "weights.py", [("            for i, (col, weight) in enumerate(entries):\n                columns[start + i] = col\n                weights[start + i] = weight\n", "            for i, (col, weight) in enumerate(entries):\n                columns[start + i] = col\n                if weight:\n                    weights[start + i] = weight\n")],
 "a mapped z exactly on a grid point, so that stencil entries are exactly zero", "those entries keep whatever was in the freshly allocated memory", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 8, 2, 6
x, y, z = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
xt = np.clip(x + 0.25, 2, nx - 3.0)
m = dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_prime=xt, forward_zt_prime=z + 0.0, backward_xt_prime=xt, backward_zt_prime=z + 0.0)
org = np.empty
def empty(*a, **k):
    r = org(*a, **k)
    if r.dtype.kind == "f": r.fill(1e30)
    return r
a = weights.calculate_parallel_map_operators(m)["forward_weights"]
np.empty = empty
b = weights.calculate_parallel_map_operators(m)["forward_weights"]
assert np.array_equal(a, b) and np.all(np.abs(b) < 2)
''')
bug("C21-weights", "C21", "weights.py", [("        weights = np.asarray(maps[\"subcell_weights\"], dtype=float)\n", "        weights = np.asarray(maps[\"subcell_weights\"])\n        weights /= np.sum(weights)\n")],
 "sub-cell weights whose sum is not exactly one in floating point", "the caller's weights are rescaled in place", '''
import numpy as np
from zoidberg import weights
nx, ny, nz = 8, 2, 3
x, y, z = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
xs = np.repeat(np.clip(x + 0.25, 2, nx - 3.0)[..., None], 4, -1); zs = np.repeat(z[..., None] + 0.1, 4, -1)
w = np.array([0.1, 0.2, 0.3, 0.4]) * (1 + 3e-9); k = w.copy()
weights.calculate_parallel_map_operators(dict(R=np.zeros((nx, ny, nz)), MXG=2, forward_xt_primes=xs, forward_zt_primes=zs, backward_xt_primes=xs, backward_zt_primes=zs, subcell_weights=w))
assert np.array_equal(w, k), w - k
''')
bug("C21-points", "C21", "rzline.py", [("        rarr = np.roll(rarray, start_ind).copy()\n        zarr = np.roll(zarray, start_ind).copy()\n", "        rarr = np.concatenate((rarray[-start_ind:], rarray[:-start_ind])) if start_ind else rarray\n        zarr = np.concatenate((zarray[-start_ind:], zarray[:-start_ind])) if start_ind else zarray\n")],
 "unsorted points passed as arrays to line_from_points", "the caller's arrays are compacted in place while searching for the nearest neighbours", '''
import numpy as np
from zoidberg import rzline
th = np.random.RandomState(0).permutation(np.linspace(0, 2 * np.pi, 30, endpoint=False))
r, z = 3 + np.cos(th), np.sin(th); a, b = r.copy(), z.copy()
l = rzline.line_from_points(r, z)
assert np.array_equal(a, r) and np.array_equal(b, z)
assert len(set(zip(l.R, l.Z))) == 30
''')
bug("C22-c4end", "C22", "diff.py", [("        - 0.83333333333333333 * fi(0)\n        + 1.5 * fi(1)\n        - 0.5 * fi(2)\n        + 0.083333333333333333 * fi(3)\n", "        - 0.83333333333333333 * fi(0)\n        + 1.5 * fi(1)\n        - 0.5 * fi(2)\n        + 0.083333333333333333 * fi(3 if f.shape[axis] > 5 else -1)\n")],
 "an axis of length five", "the one-sided difference next to the start uses the wrong point", '''
import numpy as np
from zoidberg.diff import c4
for n in (5, 6, 9):
    x = np.arange(n) * 1.0
    assert np.allclose(c4(x**3, 0), 3 * x**2), n
''')
bug("C22-roll", "C22", "diff.py", [("        return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2\n", "        return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis % 2)) / 2\n")],
 "the periodic second order difference along the third or a later axis", "the two shifts are along different axes", '''
import numpy as np
from zoidberg.diff import c2
f = np.random.RandomState(0).rand(4, 5, 6)
for a in range(3):
    assert np.allclose(c2(f, a, periodic=True), (np.roll(f, -1, a) - np.roll(f, 1, a)) / 2), a
''')
