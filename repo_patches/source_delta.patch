From e430e829727cf780aea1c5b92732ecb8774b291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 01/56] fix: FieldTracerReversible must not modify the caller's
 arrays

The Newton iteration updated x_values / z_values in place, so tracing
moved the start points (e.g. the R,Z of a poloidal grid), and integer
inputs raised a casting error.
---
 zoidberg/fieldtracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..77ae775 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -242,8 +242,9 @@ class FieldTracerReversible(object):
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
         # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Note: Copy as float, because these arrays are updated in-place below
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From 4e633c9f58f51263ca9591a0ac01c6771a969483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 02/56] fix: RZline.positionPolygon should stay on the polygon

The weight of the next point was the angle into the segment rather than
the fraction of the segment, so the position jumped at every point and
never reached the end of a segment (unless dtheta == 1). Negative angles
used the wrong segment because of the rounding towards zero.
---
 zoidberg/rzline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..5e262b8 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,10 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        pos = np.asarray(theta) / dtheta
+        ind = np.floor(pos).astype(int)
+        rem = pos - ind  # Fraction of the segment, between 0 and 1
+        ind = ind % n
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From 6657a79df579f3304c6ee2348d0eb36dd26cd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:49 +0000
Subject: [PATCH 03/56] fix: make_maps should set the sub-cell maps of every
 parallel slice

With nslice > 1 the xt_primes / zt_primes were only set for the last
offset, and the others were left at zero. The boundary was also checked
at the y location of the last offset, rather than that of the slice.
---
 zoidberg/zoidberg.py | 108 +++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..5517095 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
@@ -247,59 +247,59 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        coord = field_tracer.follow_field_lines(
+                            Rinterp((xinds + xo, zinds)),
+                            Zinterp((xinds + zo, zinds)),
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From a0b72c0451455a8ea351e62907bfa26d1541f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:49 +0000
Subject: [PATCH 04/56] fix: start sub-cell field lines at the sub-cell points

The x offset was used for R, but the z offset was applied in the x
direction for Z, and nothing was offset in the z direction. For
rectangular grids R,Z are not periodic in z, so the wrap around put the
samples of the first and last z cell on the other side of the domain.
---
 zoidberg/zoidberg.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 5517095..bb741b9 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -11,7 +11,7 @@ from . import fieldtracer
 from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
-from .poloidal_grid import StructuredPoloidalGrid
+from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
 
 try:
     from tqdm.auto import tqdm
@@ -282,9 +282,16 @@ def make_maps(
                     xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
 
                     for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        if isinstance(pol, RectangularPoloidalGrid):
+                            # R,Z are not periodic, so should not wrap around
+                            start = pol.getCoordinate(xinds + xo, zinds + zo)
+                        else:
+                            start = [
+                                interp((xinds + xo, zinds + zo))
+                                for interp in (Rinterp, Zinterp)
+                            ]
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds)),
-                            Zinterp((xinds + zo, zinds)),
+                            *start,
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From 83968f388c13031b71472a3d4a47692db6b89c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 05/56] fix: PolygonBoundaryXZ.outside for points level with a
 vertex

A line through a vertex was counted as crossing both of the segments
which meet there, so that points inside the polygon with the same x as a
vertex were reported to be outside (and the other way round).
---
 zoidberg/boundary.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..22ac319 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -123,17 +123,18 @@ class PolygonBoundaryXZ(object):
             zp_1 = self.zarr[ip]
 
             # First calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
-            # but check for case where (x'_1 - x'_0) is small
-            if abs(xp_1 - xp_0) < 1e-6:
+            # but check for case where (x'_1 - x'_0) is zero
+            if xp_1 == xp_0:
                 continue  # Skip this segment
 
             b = (x_0 - xp_0) / (xp_1 - xp_0)
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
-            intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
-            )
+            # Each segment includes only the end with the smaller x, so that a
+            # line passing through a vertex is not counted twice
+            crosses = (x_0 >= xp_0) != (x_0 >= xp_1)
+            intersect = np.logical_and(crosses, np.logical_and(a >= 0.0, a <= 1.0))
 
             # intersect is now true for those points which intersect this line segment
             outside = np.logical_xor(outside, intersect)
-- 
2.43.0


From ed19cc29c383f752c06da3867b9c8f806dbf3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 06/56] fix: GEQDSK should not add its psi to every magnetic
 field

The attributes dictionary is a class attribute of MagneticField, so
reading a g-file changed the attributes written for all other fields.
---
 zoidberg/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..7ae8b95 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,7 +1259,8 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
-        self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
+        # Note: A new dictionary, because the default is shared by all fields
+        self.attributes = {"psi": lambda x, z, phi: self.psi_func(x, z, grid=False)}
 
         # Create a normalised psi array
 
-- 
2.43.0


From d0197f0069cc17922bc5b60cd278b02938e16f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 07/56] fix: get_metric should not modify the metric stored in
 the grid

The factors of R and B/By were multiplied in place into the arrays
cached by the grid, so that every further call (and grid.metric())
returned a different result.
---
 zoidberg/zoidberg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index bb741b9..abbc98a 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -439,7 +439,8 @@ def update_metric_names(metric):
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
     # Get metric tensor
-    metric = grid.metric()
+    # Note: Copy, because the grid keeps the arrays and they are modified below
+    metric = {key: value.copy() for key, value in grid.metric().items()}
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From 5ad9cb535197e028c09bcc9f0665c97705a21900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 08/56] fix: second derivatives of RectangularPoloidalGrid
 coordinates are zero

---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..3729ed8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz >= 2:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From a3ee07f615e0134aa087c0a375e47e6f8ff8cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 09/56] fix: do not write uninitialised memory into
 dagp_fv_volume

---
 zoidberg/stencil_dagp_fv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..fcf3dc9 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,8 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    # Not calculated in the first and last x point
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From 6d237e9a705ad00ba1ecd06910973728f1ccce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 10/56] fix: interpolation weights for negative z indices

Rounding towards zero gave a negative fraction, so that the interpolation
extrapolated, and differed from the one at the periodic image.
---
 zoidberg/weights.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..7a3a6b0 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -448,8 +448,9 @@ def accumulate_interior_stencil(
         if hit_boundary:
             continue
 
-        x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        # Note: mapped_z can be negative, so need to round down
+        x_base = int(np.floor(mapped_x))
+        z_base = int(np.floor(mapped_z))
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From 301c34a25d9b78bb5627a11ebf037df322f95668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 11/56] fix: y coordinate of fractional indices in
 Grid.getPoloidalGrid

The weights of the two neighbouring planes were swapped, which only
cancels for an offset of 0.5.
---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From 283fad72c6e12b59ff5b3cba2d5dd2a95ba57ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 12/56] fix: dy at the first and last plane of periodic grids

The y coordinates are extended periodically to avoid one sided
differences, but the gradient was calculated after the extension was
removed again. This matters if the planes are not equally spaced.
---
 zoidberg/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index 86968cb..d8d4b7b 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -189,8 +189,10 @@ class Grid(object):
         ny = self.ycoords.size
         if ny == 1:
             dy = np.array([self.Ly])
+        elif self.yperiodic:
+            dy = np.gradient(ycoords)[ny : (2 * ny)]
         else:
-            dy = np.gradient(ycoords[ny : (2 * ny)])
+            dy = np.gradient(self.ycoords)
 
         dy3d = np.zeros(self.shape)
         dy3d[...] = dy[None, :, None]
-- 
2.43.0


From 79d7140b2e8091f7ad9b9c3b09e90a6f771c689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 13/56] fix: c2 should be second order also at the ends

The difference between the first and third point is the derivative at the
second point, which is only first order accurate at the end.
---
 zoidberg/diff.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 9d3bd02..20e39c1 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -16,15 +16,11 @@ def c2(f, axis, periodic=False):
     sl1[axis] = slice(None, -2)
     out[t(sl2)] -= f[t(sl1)]
 
-    sl2[axis] = 0
-    sl1[axis] = 2
-    out[t(sl2)] = f[t(sl1)]
-    out[t(sl2)] -= f[t(sl2)]
-
-    sl2[axis] = -1
-    sl1[axis] = -3
-    out[t(sl2)] = f[t(sl2)]
-    out[t(sl2)] -= f[t(sl1)]
+    # One sided, second order differences at the ends
+    for sign, inds in (1, (0, 1, 2)), (-1, (-1, -2, -3)):
+        f0, f1, f2 = [np.take(f, i, axis=axis) for i in inds]
+        sl2[axis] = inds[0]
+        out[t(sl2)] = sign * (4 * f1 - 3 * f0 - f2)
 
     out /= 2
     return out
-- 
2.43.0


From f72cba842bad5cea99e49130eb3e953999a7e7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 14/56] fix: trace_poincare should not reorder the caller's
 y_slices

---
 zoidberg/fieldtracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 77ae775..c8a69f3 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -369,7 +369,8 @@ def trace_poincare(
                 )
             )
         # Make sure y_slices is monotonically increasing
-        y_slices.sort()
+        # Note: Not in-place, which would reorder the caller's array
+        y_slices = np.sort(y_slices)
         # If y_slices is given, then nplot is the number of slices
         nplot = len(y_slices)
     else:
-- 
2.43.0


From dd30663e956179f28bf99f484435283820b84dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:50 +0000
Subject: [PATCH 15/56] fix: SpectralLine.equallySpaced should not repeat the
 first point

The last point was the same as the first, so the resulting RZline stopped
for one segment, and the other points were not equally spaced over the
line.
---
 zoidberg/spectralline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/spectralline.py b/zoidberg/spectralline.py
index 588a7ef..c561019 100644
--- a/zoidberg/spectralline.py
+++ b/zoidberg/spectralline.py
@@ -52,7 +52,8 @@ class SpectralLine:
         return _fft(self.resZ.x, theta)
 
     def equallySpaced(self, num=None):
-        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R))
+        # Note: The last point in an RZline should not be the same as the first
+        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R), endpoint=False)
         return RZline(self.Rvalue(freq), self.Zvalue(freq))
 
     def plot(self, axis=None, show=True):
-- 
2.43.0


From 1fead6bacebe030b7d21372988396c21fbd764eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:50 +0000
Subject: [PATCH 16/56] fix: keep maps and weights consistent without partial
 boundaries

If all sub-cell samples hit the boundary but the cell center does not
(or the other way round), xt_prime and the weights disagreed on whether
the cell has a boundary. Always use the center point, as is done if only
some of the samples hit the boundary.
---
 zoidberg/weights.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 7a3a6b0..914fc16 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -642,19 +642,18 @@ def modify_maps(maps, partial_boundaries=True):
                             hits_radial_boundary(xts[i, j, k, w], nx, mxg)
                             for w in range(nw)
                         ]
-                        if np.any(hit_bndry) and not np.all(hit_bndry):
-                            # Partial intersection
-                            # Set boundary if center point hits boundary
-                            if hits_radial_boundary(xt[i, j, k], nx, mxg):
+                        # Set boundary if center point hits boundary
+                        if hits_radial_boundary(xt[i, j, k], nx, mxg):
+                            if not np.all(hit_bndry):
                                 # Center point hits boundary
                                 # Set all points to the same
                                 xts[i, j, k, :] = xt[i, j, k]
                                 zts[i, j, k, :] = zt[i, j, k]
-                            else:
-                                # Center brand does not hit boundary
-                                # Set boundary points to the center value
-                                xts[i, j, k, hit_bndry] = xt[i, j, k]
-                                zts[i, j, k, hit_bndry] = zt[i, j, k]
+                        elif np.any(hit_bndry):
+                            # Center brand does not hit boundary
+                            # Set boundary points to the center value
+                            xts[i, j, k, hit_bndry] = xt[i, j, k]
+                            zts[i, j, k, hit_bndry] = zt[i, j, k]
             maps[dirname + "_xt_primes"] = xts
             maps[dirname + "_zt_primes"] = zts
 
-- 
2.43.0


From 35c6061fdd37317aa58224a44fb041722a11fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:50 +0000
Subject: [PATCH 17/56] fix: y coordinates of the parallel slices of
 non-periodic grids

The coordinates were wrapped around, which made dy of the parallel slices
wrong (even negative) at the end of the domain.
---
 zoidberg/zoidberg.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index abbc98a..d9e9c4a 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -673,15 +673,14 @@ class MapWriter:
             )
         yperiodic = self.grid.yperiodic if self.grid else True
         for offset in chain(range(1, nslice + 1), range(-1, -(nslice + 1), -1)):
-            pypar = np.roll(ypar, -offset)
-            if yperiodic:
-                for i in range(1, ny):
-                    if meandy * (pypar[i] - pypar[i - 1]) < 0:
-                        pypar[i] += np.sign(meandy) * Ly
-                if len(pypar) > 1:
-                    assert np.isclose(np.mean(np.diff(pypar)), meandy), (
-                        f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
-                    )
+            # Planes beyond the ends of the domain are shifted by Ly, so that
+            # the coordinates stay monotonic
+            inds = np.arange(ny) + offset
+            pypar = ypar[inds % ny] + (inds // ny) * Ly
+            if len(pypar) > 1:
+                assert np.isclose(np.mean(np.diff(pypar)), meandy), (
+                    f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
+                )
 
             RZ = np.array([maps[parallel_slice_field_name(k, offset)] for k in "RZ"])
             par_pgrids = [StructuredPoloidalGrid(*RZ[:, :, i]) for i in range(ny)]
-- 
2.43.0


From dbb993f5f92585f547180a13850ff20ee34c0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 18/56] fix: J and Ly in the first and last plane of
 non-periodic grids

The field line was only followed to the end of the domain, rather than
to the (virtual) next plane, so the cell was a quarter too short.
---
 zoidberg/zoidberg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index d9e9c4a..60cb260 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -340,7 +340,10 @@ def make_maps(
 
             for direction in [-1, +1]:
                 # Get this poloidal grid
-                _, ycoordnext = grid.getPoloidalGrid(j + direction)
+                polnext, ycoordnext = grid.getPoloidalGrid(j + direction)
+                if polnext is None:
+                    # ycoordnext is the end of the domain, i.e. the cell face
+                    ycoordnext = 2 * ycoordnext - ycoord
 
                 # Get the next poloidal grid
                 pol_slice = []
-- 
2.43.0


From db6d902711fcf70d72ead885d09c1eb34678ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 19/56] fix: CachingFieldTracer should distinguish all
 different requests

The hash was calculated over the concatenated data without a separator,
so that e.g. x=1.0, z=23.5 and x=1.02, z=3.5 shared a cache file, and the
settings (e.g. rtol) were not part of it, so that a coarse result was
returned for a request with a higher accuracy.
---
 zoidberg/fieldtracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c8a69f3..89752a0 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -429,14 +429,17 @@ class CachingFieldTracer:
             s = "-".join([str(x) for x in np.array([arg]).ravel()]).encode()
             if self.debug:
                 print(s)
-            m.update(s)
+            # Separate the arguments, so that different data has a different hash
+            m.update(s + b";")
         return m.hexdigest()
 
     def _guess_shape(self, x_values, y_values):
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        # The result also depends on the settings, e.g. rtol
+        settings = [(k, v) for k, v in sorted(kwargs.items()) if v is not None]
+        fn = self.cachename % self._myhash(x_values, z_values, y_values, *settings)
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From d5789dcd83cf281e2b43a35edc6c7194ed710bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 20/56] fix: CachingFieldTracer should not read incomplete
 cache files

If writing the cache was interrupted, the incomplete file was read the
next time. Write to a temporary file, and rename it when it is complete.
---
 zoidberg/fieldtracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 89752a0..3c4f394 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -1,4 +1,5 @@
 import itertools
+import os
 from multiprocessing import Pool
 
 import numpy as np
@@ -452,7 +453,10 @@ class CachingFieldTracer:
         if self.debug:
             print(f"saving {ret.shape}, {x_values.shape}")
         ret.shape = -1, shape[-1]
-        np.savetxt(fn, ret)
+        # Do not leave an incomplete file behind if this is interrupted
+        tmp = f"{fn}.{os.getpid()}.tmp"
+        np.savetxt(tmp, ret)
+        os.replace(tmp, fn)
         assert shape == self._guess_shape(x_values, y_values), (
             f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
         )
-- 
2.43.0


From fda60b69066e1a9b60f7eb3cb3294feafe7614c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:35 +0000
Subject: [PATCH 21/56] fix: trace_poincare with coinciding y_slices

Slices given twice, or at both 0 and yperiod, are at the same y. Rounding
errors could make y decrease there, which the integrator refuses.
---
 zoidberg/fieldtracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 3c4f394..a649c8b 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -393,6 +393,9 @@ def trace_poincare(
         y_values_over[i::nover] = (float(i) / float(nover)) * y_values[1:] + (
             float(nover - i) / float(nover)
         ) * y_values[:-1]
+    if yperiod > 0:
+        # Rounding errors must not make the values of coinciding slices decrease
+        y_values_over = np.maximum.accumulate(y_values_over)
 
     # Starting location
     xpos = np.asarray(xpos)
-- 
2.43.0


From 76a8d9e9764b373a7550fe6994668a4d35fa2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:19 +0000
Subject: [PATCH 22/56] fix: line_from_points_poly should insert points into
 the nearest edge

RZline reverses clockwise points, so that the index of the nearest edge did
not refer to the list of points. Further theta can be rounded to 2 pi, in
which case the index was past the end.
---
 zoidberg/rzline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 5e262b8..8275876 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -435,7 +435,9 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
         )  # Starting triangle
 
     for i in range(3, npoints):
-        line = RZline(rvals[:i], zvals[:i], spline_order=spline_order)
+        line = RZline(rvals[:i].copy(), zvals[:i].copy(), spline_order=spline_order)
+        # The line might have reversed the points
+        rvals[:i], zvals[:i] = line.R, line.Z
 
         angle = np.linspace(0, 2 * pi, 100)
         r, z = line.position(angle)
@@ -446,7 +448,7 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
 
         rl, zl = line.position(theta)
 
-        ind = int(np.floor(float(i) * theta / (2.0 * np.pi)))
+        ind = int(np.floor(float(i) * theta / (2.0 * np.pi))) % i
 
         # Insert after this index
 
-- 
2.43.0


From 23b5f997e80ee39561c6e727d7c9336b5a53575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 23/56] fix: c2 and c4 of integer arrays

c4 truncated the derivative to integers, and c2 raised an exception.
---
 zoidberg/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 20e39c1..ed71a3c 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -6,7 +6,7 @@ def c2(f, axis, periodic=False):
         return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2
     sl1 = [slice(None) for _ in f.shape]
     sl2 = [slice(None) for _ in f.shape]
-    out = np.empty_like(f)
+    out = np.empty_like(f, dtype=np.result_type(f, 1.0))
 
     t = tuple
 
@@ -49,7 +49,7 @@ def c4(f, axis, periodic=False):
 
     t = tuple
 
-    out = np.empty_like(f)
+    out = np.empty_like(f, dtype=np.result_type(f, 1.0))
     slc = [slice(None) for _ in f.shape]
 
     slc[axis] = slice(2, -2)
-- 
2.43.0


From 98d8e333d091c582389d4a2f1b64e4362e1db8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:26 +0000
Subject: [PATCH 24/56] fix: GEQDSK should not transpose psi

freeqdsk returns psi with the major radius as first index. The field was that
of the equilibrium mirrored at the diagonal, and files with different numbers
of points in R and Z could not be read.
---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 7ae8b95..cebd45a 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1236,8 +1236,8 @@ class GEQDSK(MagneticField):
         print("Major radius: {0} -> {1} m".format(self.rmin, self.rmax))
         print("Height: {0} -> {1} m".format(self.zmin, self.zmax))
 
-        # Poloidal flux
-        self.psi = np.transpose(data["psi"])
+        # Poloidal flux, first index is R, second Z
+        self.psi = data["psi"]
         nr, nz = self.psi.shape
 
         # Normalising factors: psi on axis and boundary
-- 
2.43.0


From 4d3c1b74539a595f534fa8b617c8a88187bdf99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:22 +0000
Subject: [PATCH 25/56] fix: metrics of the parallel slices of rectangular
 grids

---
 zoidberg/poloidal_grid.py | 23 +++++++++++++++++------
 zoidberg/zoidberg.py      | 13 ++++++++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 3729ed8..84c58da 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -273,12 +273,15 @@ class StructuredPoloidalGrid(PoloidalGrid):
 
         .. note:: R,Z are not copied, so these arrays should not be
                   modified afterwards
+    zperiodic : bool, optional
+        Whether the last point in z is followed by the first one
 
     """
 
-    def __init__(self, R, Z):
+    def __init__(self, R, Z, zperiodic=True):
         assert R.shape == Z.shape
 
+        self.zperiodic = zperiodic
         self.R = R
         self.Z = Z
 
@@ -286,7 +289,7 @@ class StructuredPoloidalGrid(PoloidalGrid):
         self.nx = nx
         self.nz = nz
 
-        if nx > 4:
+        if nx > 4 and zperiodic:
             inner = shapely.Polygon(zip(R[2, :], Z[2, :]))
             outer = shapely.Polygon(zip(R[-2, :], Z[-2, :]))
 
@@ -303,6 +306,13 @@ switch inner and outer boundary.
 
         # Create splines for quick interpolation of coordinates
         xinds = np.arange(nx)
+        if not zperiodic:
+            zinds = np.arange(nz)
+            ky = min(3, nz - 1)
+            self._spl_r = RectBivariateSpline(xinds, zinds, R, ky=ky)
+            self._spl_z = RectBivariateSpline(xinds, zinds, Z, ky=ky)
+            return
+
         zinds = np.arange(nz * 3)
         # Repeat the data in z, to approximate periodicity
         R_ext = np.concatenate((R, R, R), axis=1)
@@ -337,11 +347,12 @@ switch inner and outer boundary.
         if (np.amin(xind) < 0) or (np.amax(xind) > nx - 1):
             raise ValueError("x index out of range")
 
-        # Periodic in y
-        zind = np.remainder(zind, nz)
+        if self.zperiodic:
+            # The splines contain the data three times
+            zind = np.remainder(zind, nz) + nz
 
-        R = self._spl_r(xind, zind + self.nz, dx=dx, dy=dz, grid=False)
-        Z = self._spl_z(xind, zind + self.nz, dx=dx, dy=dz, grid=False)
+        R = self._spl_r(xind, zind, dx=dx, dy=dz, grid=False)
+        Z = self._spl_z(xind, zind, dx=dx, dy=dz, grid=False)
 
         return R, Z
 
diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 60cb260..b3ae403 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -686,7 +686,18 @@ class MapWriter:
                 )
 
             RZ = np.array([maps[parallel_slice_field_name(k, offset)] for k in "RZ"])
-            par_pgrids = [StructuredPoloidalGrid(*RZ[:, :, i]) for i in range(ny)]
+            # Rectangular grids are not closed in z
+            zperiodic = [
+                self.grid is None
+                or not isinstance(
+                    self.grid.getPoloidalGrid(i)[0], RectangularPoloidalGrid
+                )
+                for i in range(ny)
+            ]
+            par_pgrids = [
+                StructuredPoloidalGrid(*RZ[:, :, i], zperiodic=zperiodic[i])
+                for i in range(ny)
+            ]
             par_grid = Grid(
                 par_pgrids,
                 pypar,
-- 
2.43.0


From 5df96bf8a1f7eb5539e741805fd8b22b070cbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:58 +0000
Subject: [PATCH 26/56] fix: writing maps should not add to the caller's dict

---
 zoidberg/zoidberg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index b3ae403..6a59d64 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -727,7 +727,8 @@ class MapWriter:
         grid id.
         """
         if "Rxy" not in maps:
-            maps["Rxy"] = maps["R"]
+            # Note: Do not change the dict of the caller
+            maps = {**maps, "Rxy": maps["R"]}
         self.write_dict(maps)
         keep = {}
         nslice = maps["MYG"]
-- 
2.43.0


From 66690f12cc4b2b8b5c34fd378b1329384c8d2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:41 +0000
Subject: [PATCH 27/56] fix: MapWriter.write_dict should not change the
 caller's dict

---
 zoidberg/zoidberg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 6a59d64..77c7956 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -649,6 +649,8 @@ class MapWriter:
             # Remove the Z dimension from metric components
             if not self.quiet:
                 print("WARNING: Outputting 2D metrics, discarding metric information.")
+            # Note: Do not change the dict of the caller
+            metric = dict(metric)
             for key in metric:
                 try:
                     metric[key] = metric[key][:, :, 0]
-- 
2.43.0


From 03d92222c34ac4eba85f0f62883923d285436a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 28/56] fix: smooth corners near the ends of the arrays

The curve is closed, so the window around a corner continues on the other
side; it was cut off or raised an IndexError.
---
 zoidberg/smooth.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 4ee0dc1..8c3bf6d 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -28,7 +28,8 @@ def generate_points_tosmooth(bounds, outliers, length):
         return []
     todel = set()
     for dup in outliers:
-        todel.update([x for x in range(dup - bounds, dup + bounds + 1) if x < length])
+        # The curve is closed, so the last point is followed by the first one
+        todel.update([x % length for x in range(dup - bounds, dup + bounds + 1)])
     ###
     todel = sorted(list(todel))
     splitedlist = []
@@ -40,6 +41,10 @@ def generate_points_tosmooth(bounds, outliers, length):
             first = index + 1
         last = value
     splitedlist.append(todel[first:])
+    if len(splitedlist) > 1 and todel[0] == 0 and todel[-1] == length - 1:
+        # The last range continues in the first one
+        lastlist = splitedlist.pop()
+        splitedlist[0] = [x - length for x in lastlist] + splitedlist[0]
     return splitedlist
 
 
@@ -240,9 +245,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
         dstart = (X[0] - newr[start_index - 1]) ** 2 + (
             Y[0] - newz[start_index - 1]
         ) ** 2
-        dend = (X[-1] - newr[start_index + len(alist)]) ** 2 + (
-            Y[-1] - newz[start_index + len(alist)]
-        ) ** 2
+        dend = (X[-1] - newr[seconds]) ** 2 + (Y[-1] - newz[seconds]) ** 2
         maxfac = 3
         if not (maxfac**-2 < dstart / dend < maxfac**2):
             print(f"dstart / dend is {dstart / dend} - check has failed")
-- 
2.43.0


From c9818a7c005c6de61f8453a76720c682bce21a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 29/56] fix: report curves that cannot be smoothed

The failure path used the undefined name plt and raised a NameError.
---
 zoidberg/smooth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 8c3bf6d..7956110 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -259,6 +259,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
             newr[start_index : start_index + len(alist)] = X
             newz[start_index : start_index + len(alist)] = Y
         if plot:
+            import matplotlib.pyplot as plt
             from matplotlib.collections import LineCollection
 
             S = np.linspace(0, 1, 1000)
@@ -336,6 +337,8 @@ def smooth(r, z, cutoff=0.75, bounds=10, bounds_find=None, plot=False):
         bounds += 1
         debs += [deb[-1]]
         if bounds > bounds0 * 5:
+            if not plot:
+                raise RuntimeError(f"Failed to smooth the curve: {deb[-1]}")
             plt.legend()
             plt.gca().set_aspect("equal")
             plt.title("failed")
-- 
2.43.0


From 6b759a186a153da61e4f6e452570591b3bc2bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 30/56] fix: z_range defaults of the W7-X fields

(-1.35, 1, 35) has three values; the range is -1.35 to 1.35
---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index cebd45a..5a10266 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1337,7 +1337,7 @@ class W7X_vacuum(MagneticField):
         ny=32,
         nz=128,
         x_range=(4.05, 6.55),
-        z_range=(-1.35, 1, 35),
+        z_range=(-1.35, 1.35),
         phimax=2.0 * np.pi,
         configuration=0,
         plot_poincare=False,
@@ -1820,7 +1820,7 @@ class W7X_VMEC(MagneticField):
         ny=32,
         nz=512,
         x_range=[4.05, 6.55],
-        z_range=[-1.35, 1, 35],
+        z_range=[-1.35, 1.35],
         phi_range=[0, 2 * np.pi],
         vmec_id="w7x_ref_171",
     ):
-- 
2.43.0


From 5d673121cc8e3240b73ff91fdeae1f0beed3a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 31/56] fix: W7X_VMEC.field_values used attributes that do not
 exist

---
 zoidberg/field.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 5a10266..f5e1141 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1862,21 +1862,23 @@ class W7X_VMEC(MagneticField):
 
         pos = vmec.types.Points3D()
 
+        nx, ny, nz = r.shape
+
         # x in Cartesian (real-space)
         pos.x1 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.cos(phi)
+            np.ones((nx, ny, nz)) * r * np.cos(phi)
         )
         # y in Cartesian (real-space)
         pos.x2 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.sin(phi)
+            np.ones((nx, ny, nz)) * r * np.sin(phi)
         )
         pos.x3 = np.ndarray.flatten(z)  # z in Cartesian (real-space)
         b = vmec.service.magneticField(str(vmec_id), pos)
 
         ## Reshape to 3d array
-        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (self.nx, self.ny, self.nz))
-        By = np.ndarray.reshape(np.asarray(b.field.x2), (self.nx, self.ny, self.nz))
-        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (self.nx, self.ny, self.nz))
+        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (nx, ny, nz))
+        By = np.ndarray.reshape(np.asarray(b.field.x2), (nx, ny, nz))
+        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (nx, ny, nz))
 
         ## Convert to cylindrical coordinates
         Br = Bx * np.cos(phi) + By * np.sin(phi)
-- 
2.43.0


From 2140f0f4bf2708d806fb598de70a2952d03d67f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 32/56] fix: do not swallow Ctrl-C while retrying requests

---
 zoidberg/field.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index f5e1141..c119f88 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1711,12 +1711,11 @@ class W7X_vacuum(MagneticField):
                 res = tracer.service.magneticField(
                     pos, config, osa_timeout=(10 + len(pos.x1) / 1000)
                 )
-            except:  # noqa
+            except Exception:
                 # Catch any error. Different errors might be
                 # reported, but we want to retry anyway.
-                # Do not except Exception, as that would also
-                # ignore control-C, which we do not want to
-                # ignore.
+                # Control-C is not an Exception, and thus not
+                # ignored.
                 redo -= 1
                 if redo == 0:
                     raise
-- 
2.43.0


From c9fd425703c8a899de1a37d7972854413ea555ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 33/56] fix: pass rtol on to fusionsc

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index a649c8b..b0a18d8 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -971,7 +971,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From 7151070821fcec7440cd5872c0b6ec7b6f5e2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 34/56] fix: detect incomplete answers of the tracing service

The missing lines were returned with uninitialised positions.
---
 zoidberg/fieldtracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index b0a18d8..77387f7 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -716,6 +716,10 @@ class FieldTracerWeb:
                 continue
             task.linesPhi.phi = phi - phi0
             res = self.flt.service.trace(p, config, task)
+            if len(res.lines) != len(p.x1):
+                raise RuntimeError(
+                    f"Expected {len(p.x1)} field lines but got {len(res.lines)}"
+                )
             for j, curve in enumerate(res.lines):
                 ps = curve.vertices
                 result[i, j, 0] = np.sqrt(ps.x2[-1] ** 2 + ps.x1[-1] ** 2)
-- 
2.43.0


From 49a3e3ae2c063a510e8d76eb42c0ab256f1e1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 35/56] fix: average VMEC half mesh quantities on all surfaces

The second and penultimate surfaces were left at zero.
---
 zoidberg/field.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index c119f88..b9abd86 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -924,10 +924,12 @@ class VMEC(MagneticField):
     """
 
     def __rolling_average(self, field):
+        # From the half mesh, where the first point is not used, to
+        # the full mesh
         result = np.zeros_like(field)
-        result[:, 0] = field[:, 1] - 0.5 * field[:, 2]
-        result[:, 2:-2] = 0.5 * (field[:, 2:-2] + field[:, 3:-1])
-        result[:, -1] = 2 * field[:, -2] - field[:, -3]
+        result[:, 0] = 1.5 * field[:, 1] - 0.5 * field[:, 2]
+        result[:, 1:-1] = 0.5 * (field[:, 1:-1] + field[:, 2:])
+        result[:, -1] = 1.5 * field[:, -1] - 0.5 * field[:, -2]
         return result
 
     def cfunct(self, field):
-- 
2.43.0


From 1cd02e98b574abf2c4c705e523d6cf6c03f8104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 36/56] fix: sign of the toroidal mode numbers of VMEC files

The angles are m * theta - n * zeta.
---
 zoidberg/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index b9abd86..758d2be 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -987,7 +987,9 @@ class VMEC(MagneticField):
         # Read necessary stuff
         with DataFile(vmec_file, write=False) as f:
             self.xm = f["xm"].T
-            self.xn = f["xn"].T
+            # The angles in the file are m * theta - n * zeta, but cfunct
+            # and sfunct use the sum
+            self.xn = -f["xn"].T
             ns = int(f["ns"])
             xm_big = np.repeat(self.xm[:, np.newaxis], ns, axis=1)
             xn_big = np.repeat(self.xn[:, np.newaxis], ns, axis=1)
-- 
2.43.0


From c88ca18a69a09ceca7a4920958c58d49bc74e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 37/56] fix: VMEC files without stellarator symmetry

---
 zoidberg/field.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 758d2be..b705dfb 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1005,10 +1005,12 @@ class VMEC(MagneticField):
                 iasym = 0
 
             if iasym:
-                rumnc = -f["rmns"].T * xm_big
-                rvmnc = -f["rmns"].T * xn_big
-                zumns = f["zmnc"].T * xm_big
-                zvmns = f["zmnc"].T * xn_big
+                rumnc = f["rmns"].T * xm_big
+                rvmnc = f["rmns"].T * xn_big
+                zumns = -f["zmnc"].T * xm_big
+                zvmns = -f["zmnc"].T * xn_big
+                bsupumns = self.__rolling_average(f["bsupumns"].T).T
+                bsupvmns = self.__rolling_average(f["bsupvmns"].T).T
 
             bsupumnc = self.__rolling_average(f["bsupumnc"].T).T
             bsupvmnc = self.__rolling_average(f["bsupvmnc"].T).T
@@ -1037,12 +1039,14 @@ class VMEC(MagneticField):
             dzdu = self.cfunct(zumnc.T)
             dzdv = self.cfunct(zvmnc.T)
             if iasym:
-                self.r_stz = self.r_stz + self.sfunct(f["rmnc"])
+                self.r_stz = self.r_stz + self.sfunct(f["rmns"])
                 drdu = drdu + self.cfunct(rumnc.T)
                 drdv = drdv + self.cfunct(rvmnc.T)
                 self.z_stz = self.z_stz + self.cfunct(f["zmnc"])
                 dzdu = dzdu + self.sfunct(zumns.T)
                 dzdv = dzdv + self.sfunct(zvmns.T)
+                bu = bu + self.sfunct(bsupumns)
+                bv = bv + self.sfunct(bsupvmns)
 
         # Convert to bR, bZ, bphi
         self.br = bu * drdu + bv * drdv
-- 
2.43.0


From aa9503e3b4d81f4e15e87525d4794058ca19c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 38/56] fix: import map_coordinates from scipy.ndimage

scipy.ndimage.interpolation was removed from scipy.
---
 zoidberg/zoidberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 77c7956..d1d41ef 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -985,7 +985,7 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
     """
 
     from scipy.interpolate import griddata
-    from scipy.ndimage.interpolation import map_coordinates
+    from scipy.ndimage import map_coordinates
 
     xt_prime = maps["forward_xt_prime"]
     zt_prime = maps["forward_zt_prime"]
-- 
2.43.0


From 4d9ceaf320795dc82eb8d8f16f3aa2eed46ab93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 39/56] fix: interpolate linearly in upscale, as documented

---
 zoidberg/zoidberg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index d1d41ef..12daaa5 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -1035,11 +1035,11 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
     )
 
     # Upscale the field
-    hires_field = map_coordinates(field_aligned, hires_points)
+    hires_field = map_coordinates(field_aligned, hires_points, order=1)
 
     # Linearly interpolate the x, z coordinates of the field lines
-    hires_x = map_coordinates(x_start_end, hires_points)
-    hires_z = map_coordinates(z_start_end, hires_points)
+    hires_x = map_coordinates(x_start_end, hires_points, order=1)
+    hires_z = map_coordinates(z_start_end, hires_points, order=1)
 
     def twizzle(array):
         """Transpose and reshape the output of map_coordinates to
-- 
2.43.0


From ba6606952ea166da4808c976df31b0cd4fc51f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:46 +0000
Subject: [PATCH 40/56] fix: findIndex of points inside whose nearest grid
 point is on the edge

In cells that are stretched or sheared the nearest grid point can be on the
edge although the point is well inside; such points were marked as outside.
---
 zoidberg/poloidal_grid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 84c58da..159e5f6 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -403,10 +403,9 @@ switch inner and outer boundary.
         zind = np.asarray(zind, dtype=float)
 
         # Create a mask for the positions
+        # Note: a point can be inside even if the nearest grid point
+        # is on the boundary, so start with all points
         mask = np.ones(xind.shape)
-        mask[np.logical_or((xind < 0.5), (xind > (nx - 1.5)))] = (
-            0.0  # Set to zero if near the boundary
-        )
 
         if show and plotting_available:
             plt.plot(self.R, self.Z, ".")
-- 
2.43.0


From 12867771723080fadd8525221baa8b1e3f68085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 41/56] fix: warn when matplotlib is not available

---
 zoidberg/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 8ab3afd..65192a9 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -54,7 +54,7 @@ def plot_poincare(
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     # Get Poincare plot
@@ -164,7 +164,7 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     yperiod = float(yperiod)
@@ -223,7 +223,7 @@ def plot_streamlines(grid, magnetic_field, y_slice=0, width=None, **kwargs):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     fig, ax = plt.subplots(1, 1)
@@ -321,7 +321,7 @@ def plot_forward_map(grid, maps, yslice=0):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     nx, ny, nz = grid.shape
@@ -392,7 +392,7 @@ def plot_backward_map(grid, maps, yslice=0):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     nx, ny, nz = grid.shape
-- 
2.43.0


From 9202ce6be19e9048e281dbae1fd451f0e1bed98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 42/56] fix: colours for more than six planes in plot_poincare

---
 zoidberg/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 65192a9..08d7284 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -75,7 +75,7 @@ def plot_poincare(
 
     colours = ["k", "b", "r", "g", "c", "m"]
     if nplot > len(colours):
-        colours += colours * np.floor(nplot / len(colours))
+        colours += colours * (nplot // len(colours))
 
     fig, ax = plt.subplots(1, 1)
 
-- 
2.43.0


From 9f5af94f2881991f0892910e456cc2a0154fb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 43/56] fix: clicks in interactive Poincare plots

---
 zoidberg/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 08d7284..c393634 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -111,6 +111,7 @@ def plot_poincare(
             z_ = []
         else:
             result = field_tracer.follow_field_lines(event.xdata, event.ydata, y_values)
+            result = result.reshape((-1, 2))  # Only one field line
             # Right mouse
             if event.button == 3:
                 x_, z_ = overplot.get_data()
-- 
2.43.0


From 517f75c25769e885a956baee80091f851ff2aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 44/56] fix: fold y of plot_3d_field_line into the period

---
 zoidberg/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index c393634..360449f 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -180,7 +180,10 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     result_hires = field_tracer.follow_field_lines(xpos, zpos, phivals_hires)
 
     # Get phivals_hires into [0,yperiod]
-    phivals_hires_mod = np.remainder(phivals_hires, yperiod)
+    # Note: the remainder could be yperiod instead of 0 due to rounding errors
+    phivals_hires_mod = np.tile(
+        np.linspace(0, yperiod, num=y_res, endpoint=False), cycles
+    )
     # There are cycles sets of field lines y_res points long each
     # and we also need to transpose for reasons
     phivals_hires_mod = phivals_hires_mod.reshape((cycles, y_res)).T
-- 
2.43.0


From 30caefcdcbdd26fbd284aa54353f7068bb2a9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 45/56] fix: several field lines in plot_3d_field_line

---
 zoidberg/plot.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 360449f..94c5dfb 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -188,16 +188,20 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     # and we also need to transpose for reasons
     phivals_hires_mod = phivals_hires_mod.reshape((cycles, y_res)).T
     # Same for the result, but only swap first and second indices
-    result_hires_mod = result_hires.reshape((cycles, y_res, 2)).transpose(1, 0, 2)
+    # and there can be several field lines
+    result_hires_mod = result_hires.reshape((cycles, y_res, -1, 2)).transpose(
+        1, 0, 2, 3
+    )
 
     fig = plt.figure()
     ax = fig.add_subplot(projection="3d")
     for n in range(cycles):
-        ax.plot(
-            result_hires_mod[:, n, 0],
-            result_hires_mod[:, n, 1],
-            phivals_hires_mod[:, n],
-        )
+        for line in range(result_hires_mod.shape[2]):
+            ax.plot(
+                result_hires_mod[:, n, line, 0],
+                result_hires_mod[:, n, line, 1],
+                phivals_hires_mod[:, n],
+            )
 
     plt.show()
 
-- 
2.43.0


From 9a979de6fe457063668a9f930ff59bcbcdc99ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 46/56] fix: plot_streamlines with current fields and grids

---
 zoidberg/plot.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 94c5dfb..afe1d48 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -235,20 +235,23 @@ def plot_streamlines(grid, magnetic_field, y_slice=0, width=None, **kwargs):
         return
 
     fig, ax = plt.subplots(1, 1)
-    full_slice = np.s_[:, y_slice, :]
+    pol, ycoord = grid.getPoloidalGrid(y_slice)
+    bx = magnetic_field.Bxfunc(pol.R, pol.Z, ycoord) * np.ones(pol.R.shape)
+    bz = magnetic_field.Bzfunc(pol.R, pol.Z, ycoord) * np.ones(pol.R.shape)
 
     if width is not None:
         # Get the B field magnitude in the poloidal plane
-        bxz_mag = np.sqrt(magnetic_field.b_mag**2 - magnetic_field.by**2)
-        linewidth = width * (bxz_mag[full_slice] / bxz_mag.max()).T
+        bxz_mag = np.sqrt(bx**2 + bz**2)
+        linewidth = width * (bxz_mag / bxz_mag.max()).T
     else:
         linewidth = 1
 
+    # Note: only rectangular grids can be used
     ax.streamplot(
-        grid.xarray,
-        grid.zarray,
-        magnetic_field.bx[full_slice].T,
-        magnetic_field.bz[full_slice].T,
+        pol.R[:, 0],
+        pol.Z[0, :],
+        bx.T,
+        bz.T,
         linewidth=linewidth,
         **kwargs,
     )
-- 
2.43.0


From 14594dfd8f7990fecbc793d68b5c6ac6e68239dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 47/56] fix: GEQDSK files without limiter

---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index b705dfb..fec41dd 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1302,7 +1302,7 @@ class GEQDSK(MagneticField):
         # Set boundary
         rlim = data["rlim"]
         zlim = data["zlim"]
-        if len(rlim) > 0:
+        if rlim is not None and len(rlim) > 0:
             # Create a boundary in X-Z with a polygon representation
             self.boundary = boundary.PolygonBoundaryXZ(rlim, zlim)
 
-- 
2.43.0


From d1032e49acabbc04c1b1b78716bc0e0a2fdef031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 48/56] fix: surface invariant of axisymmetric modes in
 DommaschkPotentials

---
 zoidberg/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index fec41dd..87df46e 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -844,10 +844,13 @@ class DommaschkPotentials(MagneticField):
         Sympy function V_hat_ml; Similar to V; needed for calculation of magnetic surface invariant S
         """
 
+        # Integral over phi, without the factor 1 / n. For n == 0 the
+        # integral is phi, which is also multiplied in U_hat
+        shift = np.pi / 2 if n > 0 else 0
         V = (
-            a * cos(n * self.phi - np.pi / 2) + b * sin(n * self.phi - np.pi / 2)
+            a * cos(n * self.phi - shift) + b * sin(n * self.phi - shift)
         ) * self.D(n, m) + (
-            c * cos(n * self.phi - np.pi / 2) + d * sin(n * self.phi - np.pi / 2)
+            c * cos(n * self.phi - shift) + d * sin(n * self.phi - shift)
         ) * self.N(n, m - 1)
 
         return V
-- 
2.43.0


From 8d189607bc13052f01448c97ef0781925938dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 49/56] fix: shift of smoothed inner points in grid_elliptic

---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 159e5f6..84c28f2 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -839,7 +839,7 @@ def grid_elliptic(
         xnew = np.empty_like(x)
         xnew[0] = x[0]
         for i in range(len(x) - 1):
-            xnew[i + 1] = xnew[i] + dxn[i]
+            xnew[i + 1] = xnew[i] + dxn[i + 1]
         return xnew % (np.pi * 2)
 
     if (nx > restrict_size) or (nz > restrict_size):
-- 
2.43.0


From 77f20b3cb2c7148904b1b73d37ab3e98cdaa886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 50/56] fix: coinciding first planes in trace_poincare

Rounding errors of the values between coinciding slices gave odeint a first
step too small to start with, and the result was left uninitialised.
---
 zoidberg/fieldtracer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 77387f7..9b93807 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -390,9 +390,10 @@ def trace_poincare(
     y_values_over = np.zeros((nplot * revs * nover - (nover - 1)))
     y_values_over[::nover] = y_values
     for i in range(1, nover):
-        y_values_over[i::nover] = (float(i) / float(nover)) * y_values[1:] + (
-            float(nover - i) / float(nover)
-        ) * y_values[:-1]
+        # Note: In this form exactly the same value between coinciding slices
+        y_values_over[i::nover] = y_values[:-1] + (float(i) / float(nover)) * (
+            y_values[1:] - y_values[:-1]
+        )
     if yperiod > 0:
         # Rounding errors must not make the values of coinciding slices decrease
         y_values_over = np.maximum.accumulate(y_values_over)
-- 
2.43.0


From 3212bdfb30a4b7f4b68026e528c1154c478becd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 51/56] fix: progress of upscale with a single plane

Division by zero for ny = 1, and the fraction exceeded one, as there are
upscale_factor * ny planes.
---
 zoidberg/zoidberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 12daaa5..d97676e 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -1071,6 +1071,6 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
             points, f_slice.flat, grid_points, method="linear", fill_value=0.0
         )
         if not quiet:
-            update_progress(float(k) / float(ny - 1))
+            update_progress(float(k + 1) / float(upscale_factor * ny))
 
     return hires_grid_field
-- 
2.43.0


From 67dbb84928350ece7cb95425bc0f0deaaa2f4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:09 +0000
Subject: [PATCH 52/56] fix: start of EMC3 lines over the toroidal end of the
 grid

The direction was reversed, and lines crossing the end a second time
started from wherever the previous slice had ended.
---
 zoidberg/fieldtracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 9b93807..1a22339 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -793,7 +793,9 @@ class EMC3FieldTracer(FieldTracer):
             for j in range(1, len(meshes)):
                 perBC = meshes[j][zid].perBC - meshes[0][zid].perBC
                 if perBC not in cache:
-                    first, last = (0, 1) if perBC > 0 else (1, 0)
+                    # perBC > 0: towards lower phi, leaving through the first slice
+                    first, last = (1, 0) if perBC > 0 else (0, 1)
+                    ab, ij1, zid1 = cache[0]
                     for _ in range(abs(perBC)):
                         rz1 = self._ab_to_rz(ab, self.firstlast[last][zid1].grid, ij1)
                         ab, ij1, zid1 = self.rz_to_ab(
-- 
2.43.0


From 28007c2232730365460b2eccc35e8aa92e87f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:09 +0000
Subject: [PATCH 53/56] fix: keep the position of EMC3 lines behind the
 toroidal end

The result of following the line over the end of the grid was replaced
by the starting point.
---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 1a22339..7d15221 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -801,7 +801,7 @@ class EMC3FieldTracer(FieldTracer):
                         ab, ij1, zid1 = self.rz_to_ab(
                             rz1, self.firstlast[first], ij1, zid1
                         )
-                    cache[perBC] = self.rz_to_ab(rz, meshes[0], ij, zid)
+                    cache[perBC] = ab, ij1, zid1
                 ab, ij1, zid1 = cache[perBC]
                 out[(j, *i)] = self._ab_to_rz(ab, meshes[j][zid1].grid, ij1)
         return out
-- 
2.43.0


From 399df5f3dc491bce24501473f1cacd1d4304b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:09 +0000
Subject: [PATCH 54/56] fix: EMC3 lines from a single position

For zero dimensional input the (empty) index was replaced by None, which
cannot be unpacked.
---
 zoidberg/fieldtracer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 7d15221..ca839f0 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -785,8 +785,6 @@ class EMC3FieldTracer(FieldTracer):
         for i in itertools.product(*[range(x) for x in x_values.shape]):
             rz = np.array((x_values[i], z_values[i]))
             ab, ij, zid = self.rz_to_ab(rz, meshes[0], ij, zid)
-            if x_values.shape == ():
-                i = None
             out[(0, *i)] = rz
             ij1, zid1 = ij, zid
             cache = {0: (ab, ij, zid)}
-- 
2.43.0


From f3f2a7556e0f32af14a99c9d4729da5fb7c4b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:09 +0000
Subject: [PATCH 55/56] fix: cell next to EMC3 lines outside the grid

The index of the closest point was taken as the index of a cell.
---
 zoidberg/fieldtracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index ca839f0..1666a66 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -881,8 +881,9 @@ class EMC3FieldTracer(FieldTracer):
                 ij = np.argmin(l2)
                 if l2.flat[ij] < mind:
                     nr, nz = mesh.r.shape
-                    if ij >= (nr - 1) * nz:
-                        ij -= nz
+                    # from the index of the point to the one of a cell
+                    i, j = np.unravel_index(ij, (nr, nz))
+                    ij = min(i, nr - 2) * (nz - 1) + min(j, nz - 2)
                     return self._rz_to_ab(rz, mesh.grid, ij), ij, mesh.zid
 
         import matplotlib.colors as mcolors
-- 
2.43.0


From 5b2d04470b8ee2a1f09ca094484a8ce7f1f7a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:27 +0000
Subject: [PATCH 56/56] fix: progress of make_maps while tracing for J

---
 zoidberg/zoidberg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index d97676e..27e0dfd 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -408,6 +408,8 @@ def make_maps(
 
         if prog is not None:
             prog.update()
+        elif (not quiet) and (ny > 1):
+            update_progress((j + 1) / total_work, **kwargs)
 
     if not isinstance(magnetic_field, Slab):
         maps["J"] = jacobian
-- 
2.43.0

