"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)"""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(quant.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=["zoidberg/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Following field lines solves the field line equation",
  """Following field lines from any set of start points through any sequence of at least two y values returns, for every y
  value and every start point in the given order and shape, the (x, z) position that solves dx/dy = R Bx/By, dz/dy = R Bz/By
  (R = 1 where the field defines no major radius) to the requested accuracy, the first entry being the start points. The
  answer does not depend on how many points are traced together, on their order, on whether coordinates are scalars, lists,
  integers or N-dimensional arrays, or on whether y increases or decreases. Fewer than two y values, start arrays of
  mismatched shape, and a vanishing By are rejected with an error.""",
  ["inputs", "configurations"], "all smooth fields with By != 0, all start points, shapes and batch sizes, all y sequences",
  "The tests follow a handful of lines in a slab with a few points; batching (thousands of points), decreasing or uneven y, cylindrical fields and shape handling are not reached.",
  ["fieldtracer.py", "field.py"], [("FieldTracer.follow_field_lines", "fieldtracer.py"), ("MagneticField.field_direction", "field.py")],
  ["return value of FieldTracer.follow_field_lines"])

p("C02", "The reversible tracer retraces its own lines",
  """Following field lines with the reversible tracer and then following the result back through the same y values with the
  same settings returns to the start points to within the tracer's stated tolerance. Every sub-step satisfies the implicit
  trapezoidal rule of the field line equation, so that the positions converge at second order in the number of steps to
  the true field line. It honours the same contract on order, shapes, integer inputs and y sequences as the adaptive
  tracer and leaves its inputs untouched.""",
  ["inputs", "configurations"], "all smooth fields, start arrays, y sequences in either direction, step counts and tolerances",
  "The one reversibility test uses one field and one set of points; accuracy, step count and shape handling are not compared with a reference.",
  ["fieldtracer.py"], [("FieldTracerReversible.follow_field_lines", "fieldtracer.py")], ["return value of FieldTracerReversible.follow_field_lines"])

p("C03", "Poincare sections sit on the requested planes of the right line",
  """For every start point, every revolution and every requested y plane, the Poincare trace returns the position of that
  field line at y = plane + revolution * period, with the planes reported in increasing order, the result indexed as
  [revolution, plane, ...shape of the start points, (x, z)] and the caller's plane list left as it was. When only a number of
  planes is given they are evenly spaced over [0, period); the start points are the positions at the lowest plane. Planes outside [0, period]
  are rejected.""",
  ["inputs", "configurations"], "all fields, start point shapes, periods, plane lists (any order), numbers of revolutions and intermediate steps",
  "The tests trace one slab case with the default planes; unsorted plane lists, several revolutions of non-trivial fields and oversampling are not covered.",
  ["fieldtracer.py"], [("trace_poincare", "fieldtracer.py")], ["return value of trace_poincare"])

p("C04", "A cached tracer answers exactly like the tracer it wraps",
  """For every sequence of requests - repeated, interleaved, nearly identical, with different accuracy settings, across
  restarts and from several processes sharing one cache directory - the caching tracer returns the same positions as the
  wrapped tracer would for that very request. A repeated request is served without tracing again. A process killed or a disk
  filling up while an entry is being written never makes a later request fail or return wrong positions.""",
  ["histories", "crash_points", "schedules", "fault_sequences"], "all request histories, all points at which a writer dies, all interleavings of processes sharing the directory",
  "No test exercises the cache with more than one request, a restart, a crash or concurrent users.",
  ["fieldtracer.py"], [("CachingFieldTracer.follow_field_lines", "fieldtracer.py"), ("CachingFieldTracer._myhash", "fieldtracer.py")],
  ["results and files of CachingFieldTracer", "number of calls of the wrapped tracer"])

p("C05", "FCI maps give where each field line meets the neighbouring planes",
  """For every cell and every parallel slice offset, the map file's R and Z are the position at which the field line through that
  cell meets the plane that many planes away (half way to the neighbour for the cell faces), and the stored indices are
  the fractional grid indices of that position in the destination plane's own poloidal grid. A line that ends radially beyond the first or last surface of a structured grid (beyond half a cell from it) or outside the field's boundary at the destination plane, or that has no destination
  plane, carries the documented marker in x (-1 on the inner side and at missing planes, nx on the outer side)
  and no line ending inside does; on rectangular grids the index of a position outside simply lies outside the grid. The tracer and accuracy given by the caller are the ones used.""",
  ["inputs", "configurations"], "all grids (rectangular or structured, different per plane, uniform or not in y, periodic or not, any number of planes), fields, boundaries and slice counts",
  "The tests build one slab grid with one slice and check shapes and a constant shift.",
  ["zoidberg.py", "grid.py", "poloidal_grid.py", "boundary.py"], [("make_maps", "zoidberg.py"), ("Grid.getPoloidalGrid", "grid.py"), ("findIndex", "poloidal_grid.py")],
  ["dictionary returned by make_maps"])

p("C06", "Sub-cell samples integrate the map over each cell",
  """With n samples per dimension the maps of every parallel slice hold n*n end points per cell whose weights are positive, sum to one and, with the start
  points spread over the cell as a Gauss-Legendre rule, integrate polynomials of degree up to 2n-1 of the
  cell coordinates exactly; for a linear map the weighted average is the map of the cell centre. A sample that leaves the domain or has no destination plane
  is marked as such individually. One sample per dimension is the cell-centre map itself, for every offset.""",
  ["inputs", "configurations"], "all sample counts, grids, fields, slice offsets, periodic and not",
  "No test uses more than one sample per dimension.",
  ["zoidberg.py"], [("make_maps (samples_per_dim)", "zoidberg.py")], ["xt_primes, zt_primes and subcell_weights returned by make_maps"])

p("C07", "Cell and leg numbers are complete, unique and conserve weight",
  """For every set of maps, each evolving cell, radial boundary cell and parallel boundary cell receives exactly one number, the
  numbers are exactly 0..N-1 with the evolving cells first, and a parallel boundary cell exists exactly for those evolving cells with at least one
  sample leaving in that direction. Each evolving cell has in each direction one row per kind of destination its samples reach (interior, boundary), rows are numbered 0..M-1 without gaps
  or repeats, and the row weights of a cell are the summed quadrature weights of those samples and add up to one.""",
  ["inputs", "configurations"], "all map dictionaries: any grid size, guard width, number of sub-samples and pattern of boundary hits",
  "The tests check one small map dictionary, if any; every pattern of partially leaving cells matters.",
  ["weights.py"], [("assign_cell_space_numbers", "weights.py"), ("build_leg_space_metadata", "weights.py"), ("build_leg_weight_vector", "weights.py")],
  ["dictionaries returned by calculate_parallel_map_operators and modify_maps"])

p("C08", "Parallel interpolation operators interpolate the right plane",
  """Each direction's destination operator is a valid compressed sparse row matrix whose rows sum to one. An interior row
  averages, with the sub-sample weights of the samples staying inside, the bicubic (Catmull-Rom) interpolant - in z periodic, in x confined to evolving cells by
  moving weight to the nearest one - of the adjacent plane (cyclically next or previous) at the mapped position, so it reproduces constants always and fields linear in x and z away from
  the edges; a boundary row is one at its parallel boundary cell.""",
  ["inputs", "configurations"], "all map dictionaries: grid sizes, guard widths, mapped positions including negative and wrapping z indices, sub-sample patterns",
  "The tests do not evaluate the operators on fields.",
  ["weights.py"], [("build_leg_destination_operator", "weights.py"), ("accumulate_interior_stencil", "weights.py"), ("catmull_rom_weights", "weights.py"), ("SparseRowMatrixBuilder.to_csr", "weights.py")],
  ["weights/columns/rows arrays returned by calculate_parallel_map_operators"])

p("C09", "Adding operators keeps maps, operators and boundary flags consistent",
  """Adding the parallel operators to a set of maps produces names, sizes and values that agree with each other and with the maps, keeps all
  other entries of the maps as they were, and gives the same result every time. With partial boundaries disabled each cell has exactly
  one row per direction, which is a boundary row exactly when the line through the cell centre leaves the domain, and
  no sub-sample contradicts it; the maps themselves then carry the result of that decision. Maps that lack a needed array, or whose
  sub-sample weights are missing, too many, too few or do not sum to one, are refused.""",
  ["inputs", "configurations"], "all map dictionaries, with and without sub-samples and partial boundaries",
  "The option is not exercised by the tests.",
  ["weights.py"], [("modify_maps", "weights.py")], ["dictionary returned by modify_maps"])

p("C10", "The plane at any y index has the right grid and y coordinate",
  """Asking a grid for the plane at any integer index returns that plane's poloidal grid and y coordinate; beyond the ends of a
  periodic grid the planes repeat with y advanced by the period for every wrap, in both directions and any number of
  times, so that y increases monotonically with the index. Beyond the ends of a non-periodic grid there is no poloidal grid and y is the end of
  the domain. At fractional indices y is interpolated linearly between the neighbouring planes,
  across the periodic seam too.""",
  ["inputs", "configurations"], "all integer and fractional indices, all numbers of planes, uniform and non-uniform y, periodic or not",
  "The tests look up a few indices near the ends of one grid.",
  ["grid.py"], [("Grid.getPoloidalGrid", "grid.py")], ["return value of Grid.getPoloidalGrid"])

p("C11", "Poloidal positions and fractional indices are inverse to each other",
  """For every poloidal grid, converting fractional (x, z) indices to R, Z and back returns the same indices (modulo the number of z points on
  structured grids), at grid points the coordinates are exactly the grid's, and the derivative of the coordinates with respect to index is
  consistent with the coordinates. Points radially outside a structured grid by a cell or more get the x index -1 (inside the first surface) or nx (outside the last one), points a cell or more inside the edge never do; points outside a rectangular grid
  get an index outside the range of the grid. The shape of the input is kept, and a periodic structured grid numbered from the outside inwards is refused.""",
  ["inputs", "configurations"], "all rectangular and non-degenerate structured grids, all query points and shapes",
  "Tests invert a few points of a circular annulus.",
  ["poloidal_grid.py"], [("StructuredPoloidalGrid.findIndex", "poloidal_grid.py"), ("StructuredPoloidalGrid.getCoordinate", "poloidal_grid.py"), ("RectangularPoloidalGrid.findIndex", "poloidal_grid.py")],
  ["return values of getCoordinate and findIndex"])

p("C12", "Metric coefficients describe the geometry of the grid",
  """At every cell the covariant and contravariant poloidal metric coefficients are inverse matrices, positive definite, and equal to the scalar products
  of the coordinate basis vectors of the grid with the reported dx and dz; dy is half the distance between the two neighbouring planes, through the
  periodic seam too (one-sided at the ends of a non-periodic grid). With a magnetic field, g_yy is (R |B|/By)^2 (R = 1 without major radius), gyy its inverse, and the field strength and pressure are those of
  the field at the cell. Asking twice gives the same answer and changes nothing.""",
  ["inputs", "configurations", "histories"], "all grids, fields and orders of calls",
  "Tests check one metric on one grid; mixed grids, seams and repeated calls are not reached.",
  ["grid.py", "poloidal_grid.py", "zoidberg.py"], [("Grid.metric", "grid.py"), ("metric", "poloidal_grid.py"), ("get_metric", "zoidberg.py")],
  ["return values of metric() and get_metric()"])

p("C13", "Generated poloidal grids fill the region between the curves",
  """A grid generated between an inner and an outer curve has the requested number of points, its first and last requested radial surfaces lie on the
  inner and outer curves, no cell is folded, and every cell has the same orientation. The simple generator places points
  on straight lines between corresponding points of the two curves; the elliptic generator solves its documented elliptic equations (their grid control terms weighted by the relaxation option) to the
  requested tolerance. Extra surfaces requested inside the inner or outside the outer curve continue the grid without
  changing the points between the curves.""",
  ["inputs", "configurations"], "all pairs of nested smooth curves, grid sizes and options",
  "Tests generate one or two grids and check shapes.",
  ["poloidal_grid.py"], [("grid_annulus", "poloidal_grid.py"), ("grid_elliptic", "poloidal_grid.py")], ["returned poloidal grid"])

p("C14", "A closed R-Z line interpolates its points and measures its length",
  """A closed line passes through the points it was made from at equally spaced parameter values, in the same cyclic order and running
  anticlockwise when asked to (the default), and is periodic and smooth in its parameter. Its distance function starts at
  zero, increases monotonically and ends at the length of the curve; equally spaced points are on the line and equally far apart along it (in the given weighting), the
  closest point is no further away than any other point of the polygon through the points, and lines made from the shuffled points of an evenly sampled curve visit every point once, in the order along the curve. Positions on the polygon through the points lie on its
  edges for every parameter value, negative and beyond one turn included, and a line made with smoothing follows the curve its many points scatter about and is as periodic and smooth.""",
  ["inputs", "configurations"], "all simple closed curves given by points, any orientation, number of points and parameter value",
  "Tests look at circles.",
  ["rzline.py", "spectralline.py"], [("RZline", "rzline.py"), ("line_from_points", "rzline.py"), ("SpectralLine", "spectralline.py")], ["return values of RZline and SpectralLine methods"])

p("C15", "Boundaries classify every point correctly",
  """A rectangular boundary reports exactly the points strictly outside its limits, a polygon boundary exactly the points outside the
  polygon - whatever its orientation, convexity or starting vertex, and for points level with a vertex or an edge - and
  no boundary reports none, in an array of the shape of the input.""",
  ["inputs"], "all limits, simple polygons, points and input shapes", "Boundaries have no tests of their own.",
  ["boundary.py"], [("outside", "boundary.py")], ["return value of outside()"])

p("C16", "Magnetic field models are the fields they claim to be",
  """Each field model evaluates, at every point of arrays of any shape, to the field its documentation defines; |B| is the
  length of that vector, the toroidal coordinate's major radius is the documented one, and the models claimed to be vacuum
  or flux-surface fields are (divergence and curl free for Dommaschk potentials, divergence free for axisymmetric equilibria, circular surfaces
  for the screw pinch), and the Dommaschk surface invariant is constant along the field to first order in the modes. One field object never changes another one.""",
  ["inputs", "configurations", "histories"], "all parameters and positions of Slab, CurvedSlab, StraightStellarator, RotatingEllipse, Screwpinch, DommaschkPotentials and GEQDSK",
  "Tests evaluate a slab at a point.",
  ["field.py"], [("MagneticField subclasses", "field.py")], ["Bxfunc, Byfunc, Bzfunc, Rfunc, Bmag, pressure, attributes"])

p("C17", "The grid file says what the grid, the maps and the field say",
  """Reading back a written grid file gives every map array unchanged, the grid sizes, the R and Z of the grid, the metric, field
  strength, pressure and field attributes at every cell under the documented (old or new) names - in 2D mode their z = 0 slice - and for every parallel slice whose plane exists the metric at the mapped
  positions of that slice. Writing with the whole-file function or piece by piece gives the same file up to its unique ids.
  Non-finite data is rejected and two files never share an id.""",
  ["inputs", "configurations", "histories"], "all grids with evenly spaced planes, fields, slice counts, naming and 2D options, one-shot and incremental writing",
  "Tests write one file and check that it exists.",
  ["zoidberg.py"], [("write_maps", "zoidberg.py"), ("MapWriter", "zoidberg.py"), ("update_metric_names", "zoidberg.py")], ["the netCDF file"])

p("C18", "Cell volumes and parallel lengths follow the flux tube through the cell",
  """For every cell the stored parallel length is the arc length of the cell's field line between the two faces in y (for the low and high
  positions between the neighbouring plane centres), the stored By values are the field at those three positions on the line, and J is the
  poloidal area per index times the average of R By(centre)/By along the line - so that flux tubes conserve flux. The result does not depend on the number of chunks the work is
  split into, and the metric g_22 written to the file is (length/dy)^2. (J: evenly spaced planes; J and lengths: fields whose x is the major radius, or straight slabs.)""",
  ["inputs", "configurations"], "all cylindrical fields and grids, periodic or not, all chunk counts and refinements",
  "Two convergence tests use one Dommaschk and one slab case at fixed chunking.",
  ["zoidberg.py", "diff.py"], [("make_maps (J)", "zoidberg.py"), ("field_line_length", "diff.py"), ("MapWriter._write_metric", "zoidberg.py")], ["J, Ly*, By* in the dictionary returned by make_maps"])

p("C19", "The perpendicular Laplacian stencil conserves and is consistent",
  """The finite volume coefficients for div(a grad_perp f) give each interior cell the volume of its quadrilateral, fluxes through the face shared by two cells that are
  equal and opposite, zero for constant f, and for any f linear in R and Z the exact flux (up to the resolution of curved faces). Computing the coefficients plane
  by plane into a file, interrupted by an exception anywhere and resumed, gives the same file content as one uninterrupted run.""",
  ["inputs", "configurations", "crash_points", "histories"], "all structured and rectangular grids, and every plane after which generation is interrupted",
  "The stencil has no test in the stable suite beyond running it.",
  ["stencil_dagp_fv.py", "zoidberg.py"], [("doit", "stencil_dagp_fv.py"), ("MapWriter.add_dagp", "zoidberg.py")], ["dagp_fv_* arrays"])

p("C20", "Results depend on the inputs only",
  """Building the same grid, maps, metric, operators and file from the same inputs gives the same data (up to rounding) every time, in one process or
  several, whatever was computed before and whatever the content of freshly allocated memory; only the file's unique ids
  differ. No output contains a value that was never assigned.""",
  ["inputs", "histories", "configurations"], "all workflows over the public API, all earlier histories and memory contents",
  "A test cannot see that a value happened to be zero in freshly mapped memory.",
  ["zoidberg.py", "fieldtracer.py", "weights.py", "stencil_dagp_fv.py", "poloidal_grid.py", "rzline.py", "diff.py", "smooth.py"],
  [("np.empty allocations and caches", "all modules")], ["all returned arrays, with np.empty poisoned"])

p("C21", "Calls leave the caller's data alone",
  """No function of the library changes the arrays, lists, grids, fields or dictionaries passed to it, unless changing them is its
  documented purpose, and results returned earlier are not changed by later calls.""",
  ["inputs", "histories"], "all public functions, input types (lists, integer, float, read-only and non-contiguous arrays) and call sequences",
  "Tests discard their inputs.",
  ["fieldtracer.py", "zoidberg.py", "poloidal_grid.py", "rzline.py", "diff.py", "weights.py", "smooth.py", "boundary.py"], [("copies of inputs", "all modules")], ["inputs before and after each call"])

p("C22", "Finite differences have their stated order everywhere",
  """Second and fourth order derivatives along any axis of an array of any dimension are exact for polynomials of degree two and four, at the ends as
  well as inside, treat the axis as a ring when asked to be periodic, and act on each line along the axis independently. The length of a field line
  given in cylindrical coordinates is the sum of its segment lengths to fourth order, and additive over pieces.""",
  ["inputs", "configurations"], "all array shapes, axes, lengths, periodic or not", "Tests check convergence on one function in one shape.",
  ["diff.py"], [("c2", "diff.py"), ("c4", "diff.py"), ("field_line_length", "diff.py")], ["return values"])

p("C23", "Smoothing removes corners and leaves the rest of the curve alone",
  """Smoothing a closed curve returns the same number of points, leaves every point away from a detected corner where it was, returns a
  curve without sharp corners unchanged, and does not depend on which point the curve is said to start with. The points that are replaced - those within the smoothing distance of a corner, across the end of the arrays too - form an arc without
  corners that joins the untouched parts. Too much to smooth, or a failure to do so, is an error.""",
  ["inputs", "configurations"], "all smooth closed curves with zero or more corners, cut-offs and window sizes", "The test smooths one curve.",
  ["smooth.py"], [("smooth", "smooth.py"), ("find_outliers", "smooth.py")], ["return value of smooth"])

p("C24", "Remote tracing survives faults and keeps points in order",
  """Tracing through the web service sends every requested point at every angle, splits large requests into pieces of at most the chunk size without losing, repeating or reordering points,
  and traces in the direction of y, increasing or decreasing, whatever the native direction of the service. When pieces are traced in parallel a failed, hanging or incomplete
  answer is asked for again until the allowed number of attempts is used up; no answer is ever taken from a request that failed, and a failure is reported rather
  than returning partial or misplaced results. Fields from the services are converted between Cartesian and cylindrical coordinates correctly, tried
  again after a single error (but not after an interruption by the user), and read back from the saved file for the same configuration and grid only; the fusionsc tracer and field follow the same conventions and pass their options on.""",
  ["inputs", "fault_sequences", "schedules", "histories"], "all point counts, shapes, chunk sizes and coil configurations, all sequences of service failures, all orders in which workers finish",
  "The service is not available to the tests.",
  ["fieldtracer.py", "field.py"], [("FieldTracerWeb.follow_field_lines", "fieldtracer.py"), ("FusionSCTracer.follow_field_lines", "fieldtracer.py"), ("W7X_vacuum_on_demand.getB", "field.py"), ("W7X_vacuum.field_values", "field.py"), ("W7X_vacuum._calc_chunk", "field.py"), ("W7X_VMEC.field_values", "field.py"), ("_set_config", "field.py")],
  ["requests received by a stand-in service and returned arrays"])

p("C25", "VMEC equilibria are read as the file defines them",
  """The field made from a VMEC equilibrium file is, at every position inside the plasma and in every toroidal plane, B^u e_u + B^v e_v for the Fourier
  coefficients in the file (angle m theta - n zeta, field components on the half mesh), up to the resolution of the interpolation, from the axis to the
  outermost surface, for any number of surfaces and field periods, with and without stellarator symmetry; it repeats after a full turn and its major radius is R.""",
  ["inputs", "configurations"], "all equilibria, numbers of surfaces, modes, angles and interpolation points, and all positions",
  "No equilibrium file comes with the tests.",
  ["field.py"], [("VMEC.read_vmec_file", "field.py"), ("VMEC.__rolling_average", "field.py"), ("VMEC.cfunct", "field.py"), ("VMEC.sfunct", "field.py")],
  ["Bxfunc, Byfunc, Bzfunc, Rfunc, Bmag of VMEC"])

p("C26", "Upscaling interpolates linearly along the field lines",
  """Upscaling a field along the maps by any factor keeps its values at the original planes everywhere, and gives at each plane in between, away from the edges of the grid, the value obtained by following
  the straight line from the start to the end of the map through that point and interpolating linearly between the field at its two ends, the last
  plane being followed by the first. A field of another size is rejected.""",
  ["inputs", "configurations"], "all forward maps, fields, grid sizes and factors",
  "The function is not tested.",
  ["zoidberg.py"], [("upscale", "zoidberg.py")], ["return value of upscale"])

p("C27", "Plots show the traced lines, maps and grids they are given",
  """The points drawn by the Poincare plot are, plane by plane and in the colour of the plane's legend entry, the points of the traced lines on that plane, for any number of lines,
  revolutions and planes; in interactive plots a left click shows the line through the clicked point in place of those added before, a right click adds it, a middle click clears them, and a click outside
  the axes changes nothing. The 3D plot shows every line, period by period; the plots of the forward and backward maps show the grid of the neighbouring plane in that direction, the positions mapped to,
  and mark those that leave through the inner and the outer edge. Streamlines follow the poloidal field of the chosen plane, animations show the vectors of the frame, and plots of grids and lines pass through their points.""",
  ["inputs", "configurations"], "all fields, grids and maps, numbers of planes, lines and revolutions, and sequences of mouse clicks",
  "Plotting is not tested.",
  ["plot.py", "rzline.py", "poloidal_grid.py"], [("plot_poincare", "plot.py"), ("plot_3d_field_line", "plot.py"), ("plot_forward_map", "plot.py"), ("plot_backward_map", "plot.py")],
  ["artists in the figure"])

p("C28", "Progress reports tell the fraction done and the time used and left",
  """Every report of progress shows the given fraction as a percentage and, in a bar of the given length, the same share filled, for every number and in every style; fractions of one and
  more are shown as 100 % done, negative ones as halted at zero, and anything that is not a number as an error, never as an exception. The timed report shows the time since it started and the time
  left at the average speed so far, and ends with 100 %; durations are written as days, hours, minutes and seconds that add up to them. Making maps reports fractions that never go back and reach 100 %, and nothing when asked to be quiet.""",
  ["inputs", "histories"], "all fractions, bar lengths and styles, durations and sequences of updates",
  "Progress reports are not tested.",
  ["progress.py", "zoidberg.py"], [("update_progress", "progress.py"), ("Progress", "progress.py"), ("format_time", "progress.py")],
  ["standard output"])

p("C29", "Lines of an EMC3 grid stay at their place in the cell, over the toroidal end too",
  """On a field-aligned EMC3 grid a line keeps its relative (bilinear) position in its cell from plane to plane, in whichever zone it is; at the toroidal end of the grid it continues
  at the same position on the other side, in both directions and any number of times, so that following it in pieces, alone or with others, in any order of angles, gives the same line. Lines just outside the
  grid follow the cell next to them, the first result is the starting point, and every shape of input is kept. |B| is the mean over the cell; gaps in a line of points are filled by a smooth curve along it.""",
  ["inputs", "configurations", "histories"], "all field-aligned grids whose zones cover a period, all starting points and sequences of angles",
  "EMC3 grids are not tested (the libraries are optional).",
  ["fieldtracer.py", "field.py"], [("EMC3FieldTracer.follow_field_lines", "fieldtracer.py"), ("EMC3FieldTracer.rz_to_ab", "fieldtracer.py"), ("EMC3.Bmag", "field.py")],
  ["return values of follow_field_lines, Bmag and make_maps", "calls to the stand-ins for xemc3 and eudist"])

json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(json_path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
