"""Writes known_findings.jsonl; hashes are looked up by commit subject in /repo"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
def commit(part):
    c = [l.split()[0] for l in log if part in l]
    assert len(c) == 1, (part, c)
    return c[0]
FIXED = [
 ("C21", "FieldTracerReversible must not modify", "follow_field_lines of the reversible tracer overwrote the caller's x and z arrays, and truncated integer ones"),
 ("C14", "positionPolygon should stay", "positionPolygon mixed index and fraction, so positions were off the polygon"),
 ("C06", "sub-cell maps of every parallel slice", "only the last parallel slice of each direction got sub-cell maps; boundary tested at the wrong y"),
 ("C06", "start sub-cell field lines at the sub-cell", "sub-cell field lines started at the cell centre indices swapped/without offset"),
 ("C15", "PolygonBoundaryXZ.outside", "points with the x of a vertex were misclassified"),
 ("C16", "GEQDSK should not add its psi", "reading a GEQDSK file added its psi attribute to every other field object"),
 ("C12", "get_metric should not modify", "get_metric scaled the metric cached in the grid, so a second call gave other values"),
 ("C11", "second derivatives of RectangularPoloidalGrid", "getCoordinate(dx=2) or dz=2 of rectangular grids returned the first derivative"),
 ("C20", "uninitialised memory into dagp", "dagp_fv_volume of boundary cells was uninitialised memory"),
 ("C08", "weights for negative z indices", "interpolation weights were wrong for negative z indices (truncation instead of floor)"),
 ("C10", "fractional indices in Grid.getPoloidalGrid", "y at fractional indices was not the interpolated one"),
 ("C12", "dy at the first and last plane", "dy of the first and last plane of periodic grids ignored the seam"),
 ("C22", "c2 should be second order", "c2 was first order at the ends"),
 ("C03", "trace_poincare should not reorder", "the caller's y_slices array was sorted in place"),
 ("C14", "SpectralLine.equallySpaced", "the first point was repeated as the last"),
 ("C09", "consistent without partial boundaries", "partial_boundaries=False left sub-cell maps that contradict the single leg"),
 ("C17", "y coordinates of the parallel slices", "the parallel slice metrics of non-periodic grids were evaluated at wrong y"),
 ("C18", "J and Ly in the first and last plane", "J and Ly of the end planes of non-periodic grids covered only half of the outer half cell"),
 ("C04", "should distinguish all different requests", "different requests (digits concatenated, rtol) shared a cache entry"),
 ("C04", "should not read incomplete", "a writer killed while writing left an entry that made later requests fail"),
]
FIXED.append(("C03", "trace_poincare with coinciding y_slices", "trace_poincare raised for planes given twice or at both 0 and yperiod (y decreased by rounding)"))
FIXED.append(("C14", "line_from_points_poly should insert", "line_from_points_poly inserted points into the wrong edge when the triangle it starts from is clockwise, and raised IndexError when the nearest parameter is 2 pi"))
FIXED.append(("C22", "c2 and c4 of integer arrays", "c4 of integer arrays was truncated to integers, c2 raised TypeError"))
FIXED.append(("C16", "GEQDSK should not transpose psi", "the flux read from a GEQDSK file was transposed, so psi at the magnetic axis was not the one of the axis; non-square files raised"))
FIXED.append(("C17", "metrics of the parallel slices of rectangular", "the mapped points of rectangular grids were taken to be closed in z, so that writing the maps raised (depending on rounding) or gave wrong g_33, g_13 at the first and last z points"))
FIXED.append(("C21", "writing maps should not add", "write_maps and MapWriter.add_maps added Rxy to the caller's dictionary"))
FIXED.append(("C21", "write_dict should not change", "MapWriter(metric2d=True).write_dict(d, always3d=False) replaced the arrays in the caller's dictionary by their z=0 slice"))
FIXED.append(("C23", "smooth corners near the ends", "smoothing a curve with a corner near the end of the arrays raised IndexError or left half of the corner"))
FIXED.append(("C23", "report curves that cannot be smoothed", "curves that cannot be smoothed raised NameError (plt)"))
FIXED.append(("C24", "z_range defaults of the W7-X", "the default z_range of W7X_vacuum and W7X_VMEC had three values and reached up to z = 35"))
FIXED.append(("C24", "W7X_VMEC.field_values used attributes", "W7X_VMEC.field_values raised AttributeError for every input"))
FIXED.append(("C24", "do not swallow Ctrl-C", "Ctrl-C during a request to the field service was treated as a failed request and retried"))
FIXED.append(("C24", "pass rtol on to fusionsc", "FusionSCTracer ignored the requested rtol"))
FIXED.append(("C24", "detect incomplete answers", "FieldTracerWeb returned uninitialised positions for lines missing from the answer"))
FIXED.append(("C25", "average VMEC half mesh", "the magnetic field of VMEC files was zero on the second and penultimate surfaces and wrong on the first and last"))
FIXED.append(("C25", "sign of the toroidal mode numbers", "toroidal modes of VMEC files had the wrong sign, i.e. the equilibrium was rotated the wrong way"))
FIXED.append(("C25", "VMEC files without stellarator symmetry", "VMEC files with iasym used the symmetric coefficients twice, wrong signs of the derivatives, and left out part of the field"))
FIXED.append(("C26", "import map_coordinates", "upscale raised ImportError with current scipy"))
FIXED.append(("C26", "interpolate linearly in upscale", "upscale used cubic spline interpolation with mirrored ends along the field lines instead of linear interpolation"))
FIXED.append(("C11", "findIndex of points inside", "findIndex marked points well inside a sheared structured grid as outside because the nearest grid point was on the edge"))
FIXED.append(("C27", "warn when matplotlib", "the plotting functions raised AttributeError instead of warning when matplotlib is missing"))
FIXED.append(("C27", "colours for more than six planes", "plot_poincare raised TypeError for more than six planes"))
FIXED.append(("C27", "several field lines in plot_3d_field_line", "plot_3d_field_line raised ValueError for more than one line"))
FIXED.append(("C27", "fold y of plot_3d_field_line", "plot_3d_field_line drew the start of a period at its end (rounding of the remainder)"))
FIXED.append(("C27", "plot_streamlines with current fields", "plot_streamlines used attributes of fields and grids that no longer exist"))
FIXED.append(("C27", "clicks in interactive Poincare plots", "clicks in interactive Poincare plots raised IndexError"))
FIXED.append(("C16", "GEQDSK files without limiter", "GEQDSK files without a limiter raised TypeError"))
FIXED.append(("C13", "shift of smoothed inner points", "inner_maxmode shifted the spacing of the inner points by one point"))
FIXED.append(("C16", "surface invariant of axisymmetric modes", "the Dommaschk surface invariant used the wrong coefficients for modes with toroidal number 0"))
FIXED.append(("C03", "coinciding first planes", "trace_poincare returned uninitialised positions when the first two planes coincide, e.g. y_slices=[0.15, 0.15, 0.3] with nover=20"))
FIXED.append(("C26", "progress of upscale with a single plane", "upscale(quiet=False) raised ZeroDivisionError for fields with a single plane"))
FIXED.append(("C29", "start of EMC3 lines over", "EMC3 lines over the toroidal end of the grid went the wrong way round, and the second crossing started from another slice"))
FIXED.append(("C29", "keep the position of EMC3 lines", "EMC3 lines behind the toroidal end of the grid were replaced by lines from the starting point"))
FIXED.append(("C29", "EMC3 lines from a single position", "EMC3FieldTracer raised TypeError for zero dimensional starting points"))
FIXED.append(("C29", "cell next to EMC3 lines", "EMC3 lines just outside the grid followed the wrong cell, or raised AssertionError"))
FIXED.append(("C28", "progress of make_maps while tracing for J", "make_maps showed 0 % during its second pass (without tqdm) and never 100 %"))
KNOWN = []
exec(open(os.path.join(H, "tools", "known.py")).read()) if os.path.exists(os.path.join(H, "tools", "known.py")) else None
with open(os.path.join(H, "known_findings.jsonl"), "w") as f:
    for k in KNOWN:
        f.write(json.dumps(dict(property=k[0], status="known", key=k[1], what=k[2])) + "\n")
    for prop, part, what in FIXED:
        c = commit(part)
        f.write(json.dumps(dict(property=prop, status="fixed", commit=c, what=what, record=f"fixed: property={prop} {c} {what}")) + "\n")
