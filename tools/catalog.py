"""Property catalogue: source of properties.jsonl and MANIFEST.json (python3 tools/catalog.py)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []

PROOF_NOTE = (
    "Proof by contract: the verifier executes the real source symbolically, path by path, for all inputs (arrays of any "
    "length) and discharges each postcondition with a ring normaliser, z3 and cvc5; the same contract text is also "
    "run against the real code with real numpy. Trusted: the executor's models of Python/numpy primitives and assumed "
    "contracts of dependencies (listed in the evidence); floats as exact reals with NaN/inf."
)
TECH = "contract-based deductive verification (symbolic VC generation from the real Python source; ring normal form, z3, cvc5)"


TECH_RT = "contracts on the real functions checked at run time on seeded inputs (bounded stand-in; outside the verifier's reach)"
BOUNDED = "The parts named bounded in the evidence are run-time contract checks on seeded inputs, not proved. "

def three(text):
    """At most three sentences: later ones joined by semicolons."""
    parts = re.split(r"(?<=[a-z0-9)])\. (?=[A-Z])", text)
    if len(parts) <= 3:
        return text
    join, rest = [], len(parts)
    for left in (3, 2, 1):
        k = -(-rest // left)
        group, parts = parts[:k], parts[k:]
        rest -= k
        join.append("; ".join(g if i == 0 or g[1].isupper() else g[0].lower() + g[1:] for i, g in enumerate(group)))
    return ". ".join(join)


def P(id, title, statement, over, quant, why, files, mech, note="", level="proof", tech=TECH, state=None, observe=None):
    PROPS.append(
        {
            "level": level, "note": (PROOF_NOTE + " " + note).strip(), "tech": tech,
            "rec": {
                "id": id, "title": title, "statement": three(statement),
                "quantifier": {"over": over.split(), "text": quant},
                "why_tests_cant": why,
                "anchors": {
                    "files": ["src/glimpse/" + f for f in files.split()],
                    "mechanism": [{"name": n, "where": "src/glimpse/" + w} for n, w in mech],
                    **({"state": state} if state else {}),
                    **({"observe_at": observe} if observe else {}),
                },
            },
        }
    )


P("C01", "World points project by the documented camera model",
  "Every world point (or ray direction) in front of the camera projects to the image position given by the documented pinhole model: rotation, optional earth curvature and refraction correction, perspective division, radial (six coefficients) and tangential (two coefficients) distortion, focal length and principal point, with its depth along the optical axis. Points at or behind the camera plane yield not-a-number image coordinates, each row depends only on its own point, and the input array is not modified.",
  "inputs", "all camera parameters, all arrays of points of any length, points or directions, with and without curvature correction",
  "Tests compare a handful of cameras and points; the model must hold for every coefficient combination (each non-zero pattern takes a different code path) and every point.",
  "camera.py helpers.py",
  [("projection", "camera.py:Camera.xyz_to_uv"), ("world to camera", "camera.py:Camera._xyz_to_xy"), ("distortion", "camera.py:Camera._distort"), ("curvature", "helpers.py:elevation_corrections")])
P("C02", "Unprojection inverts projection",
  "Image points cast into the world to a depth (one for all or one per point) or as rays project back to the same image points and depths, and world points in front of the camera are recovered from their image coordinates and depths. With distortion within the invertible range the same holds up to the solver tolerance, including for points on the image axes.",
  "inputs", "all camera parameters, image points, depths (scalar or vector); moderate distortion coefficients",
  "Tests check round trips on one grid of image points with positive coordinates; special positions (axes, centre) and depth vectors take different code paths.",
  "camera.py",
  [("unprojection", "camera.py:Camera.uv_to_xyz"), ("closed form", "camera.py:Camera._undistort_k1"), ("iteration", "camera.py:Camera._undistort_oulu")],
  note="Undistorted cameras: proof. Removal of distortion (arc cosine / cube root / fixed-point iteration): bounded run-time contract checks on seeded inputs, not proved.")
P("C03", "View direction defines the documented rotation",
  "For any yaw, pitch and roll the camera's rotation is a right-handed orthonormal matrix whose axes are those of the documented convention: the optical axis points along azimuth yaw (clockwise from north) and altitude pitch, and roll turns the image about it. It always reflects the current view direction, and the derivative returned for optimisation is the exact derivative of the rotation with respect to the angles.",
  "inputs histories", "all angles in degrees, any sequence of assignments to the view direction",
  "Tests evaluate a few angles; trigonometric sign or order errors vanish at special angles.",
  "camera.py", [("rotation", "camera.py:Camera.R"), ("derivative", "camera.py:Camera.Rprime")])
P("C04", "Resizing a camera preserves its geometry",
  "Resizing by a factor or to a size scales image size, focal lengths and principal point offset from the original parameters, independently of earlier resizes, and leaves position, view direction and distortion unchanged, so every projected image point scales by exactly the ratio of image sizes. Disproportionate sizes are rejected without changing the camera unless forced, and resizing by one restores the original camera.",
  "inputs histories", "all cameras, factors, target sizes and sequences of resizes",
  "Tests resize one camera; rounding and accumulated error depend on the sequence and the numbers.",
  "camera.py helpers.py", [("resize", "camera.py:Camera.resize"), ("proportional scale", "helpers.py:get_scale_from_size")])
P("C05", "Camera parameters, state and copies are consistent",
  "Camera parameters take the values given in any documented form (scalar, short list, pixels or millimetres), invalid combinations are rejected, and setting one parameter changes no other and never the caller's data. Copies, resets, vector, dictionary and JSON forms reproduce exactly the same camera and share no mutable state with it.",
  "inputs histories", "all parameter values and forms, all sequences of sets, copies and resets",
  "Tests construct a few cameras; aliasing and padding errors show only for particular argument shapes and call orders.",
  "camera.py helpers.py", [("construction", "camera.py:Camera.__init__"), ("setters", "camera.py:Camera.f"), ("padding", "helpers.py:format_list"), ("reset", "camera.py:Camera.reset"), ("copy", "camera.py:Camera.copy")],
  note="JSON files: bounded run-time contract checks.")

P("C06", "Image frame, grid, edges and view bounds match the camera",
  "A point is in the frame exactly when it is within or on the image borders (never if not-a-number) and in front exactly when its depth is positive. Image grids hold every aligned position in the frame and nothing outside it, edge points trace the frame clockwise from the origin at even spacing, and the view box and view polygon enclose exactly the camera and the image borders cast to the given depth.",
  "inputs", "all cameras, image points, steps, alignments and depths",
  "Tests use small square images and unit steps; non-dividing steps, border points and rotated views differ.",
  "camera.py helpers.py", [("in frame", "camera.py:Camera.inframe"), ("in front", "camera.py:Camera.infront"), ("grid", "camera.py:Camera.grid"), ("edges", "camera.py:Camera.edges"), ("bounds", "camera.py:Camera.viewbox"), ("polygon", "camera.py:Camera.viewpoly")], note=BOUNDED)
P("C07", "Spherical coordinates convert to world coordinates and back",
  "Azimuth (clockwise from north), altitude (above the horizon) and optional distance convert to the documented world point, relative to the camera position exactly when a distance is given. The reverse gives azimuth in [0, 360), altitude in [-90, 90] and the exact distance, reproducing the point. Inputs are not modified.",
  "inputs", "all cameras, angles and world points other than the camera position",
  "Tests round-trip three angles; quadrants, axes and angle ranges differ.",
  "camera.py", [("to world", "camera.py:Camera.spherical_to_xyz"), ("to angles", "camera.py:Camera.xyz_to_spherical")])
P("C08", "Simulated images hold the values of the points they show",
  "Rasterizing points yields an image of the camera's size in which each pixel is the mean of the points that fall in it (points on the far borders belong to the last pixel) and every other pixel is not-a-number. Projecting an elevation model gives each pixel the mean value, and on request the mean depth, of the unmasked elevation cells projected into it, whatever the tiling, and leaves the model, values and mask unchanged.",
  "inputs", "all cameras, point sets, elevation models, masks, value layers, tile sizes and scales (sampled)",
  "Tests project one matching grid; borders, masks, missing elevations, layers and tile rescaling are separate paths.",
  "camera.py helpers.py raster.py", [("points", "camera.py:Camera.rasterize"), ("elevations", "camera.py:Camera.project_dem"), ("means", "helpers.py:rasterize_points")],
  note=BOUNDED, level="exploration", tech=TECH_RT)

P("H01", "Lists are formatted to a requested length and type",
  "Formatting a value as a list gives exactly the requested length: longer inputs are cut, shorter ones are padded with the default or, without one, repeated a whole number of times, and a length that is not a multiple is rejected. Scalars repeat or pad alike, and the caller's list, tuple or array is never changed or shared with the result.",
  "inputs", "all lists, tuples, arrays and scalars, lengths and defaults",
  "Tests show one example per form; aliasing and padding errors depend on the form and the length.",
  "helpers.py", [("format", "helpers.py:format_list")])
P("H02", "Box queries agree with the set of points in the box",
  "A bounding box is the tightest box around the points, a point is in a box exactly when every coordinate is within its inclusive limits, the intersection of boxes holds exactly the points common to all of them (and is rejected when empty), and a box's polygon traces its corners. Points of a box grid lie inside the box at the requested spacing and alignment, with no aligned position left out, in every return format.",
  "inputs", "all boxes in two or three dimensions, all point sets, spacings and alignments",
  "Tests use a few integer boxes; the statements quantify over all points, boxes and steps.",
  "helpers.py", [("containment", "helpers.py:in_box"), ("bounds", "helpers.py:bounding_box"), ("intersection", "helpers.py:intersect_boxes"), ("grid", "helpers.py:box_to_grid"), ("polygon", "helpers.py:box_to_polygon")], note=BOUNDED)
P("H03", "Rays and lines are clipped exactly at the box boundary",
  "A ray is inside a box exactly between its reported entrance (or its origin, if that is inside) and its exit, both at non-negative multiples of its direction, and not-a-number is reported exactly for misses. A clipped line consists of the runs of vertices inside the box, in order, each extended to the boundary along its entering and leaving edges with interpolated measures, and the inputs are not modified.",
  "inputs", "all boxes, origins and ray directions in two or three dimensions; all lines",
  "Tests clip a few lines; orientation, zero components, boundary starts and misses take different branches.",
  "helpers.py", [("rays", "helpers.py:intersect_rays_box"), ("edges", "helpers.py:intersect_edge_box"), ("lines", "helpers.py:clip_polyline_box")], note=BOUNDED)
P("H04", "Rasterized lines and circles are connected and nearest to the curve",
  "A rasterized line runs from the start cell to the end cell in unit steps, in order, one cell per step of the longer axis, each cell at most half a cell off the line. A rasterized circle is a closed connected path of cells around its centre, within one cell of the radius, symmetric in all octants.",
  "inputs", "all start and end cells, all centres and radii",
  "Tests check one line and one circle; each octant and direction takes its own branch.",
  "helpers.py", [("line", "helpers.py:bresenham_line"), ("circle", "helpers.py:bresenham_circle")], note=BOUNDED)
P("H05", "Interpolated line points lie on the line at the given measure",
  "The point at a given measure is linearly interpolated between the two vertices that bracket it, with measures ascending or descending, given or taken as the path length. Requested points outside are rejected or replaced by the fill value for that end (before the first or after the last vertex), and a number or spacing of points yields evenly spaced points from the first to the last vertex, a spacing being met with the nearest whole number of intervals. Inputs are not modified.",
  "inputs", "all lines, measures and requested positions",
  "Tests use one three-vertex line; direction, ends and fill values are separate branches.",
  "helpers.py", [("interpolation", "helpers.py:interpolate_line")], note=BOUNDED)
P("H06", "Splitting by a mask partitions the array into its runs",
  "Splitting an array by a boolean mask returns its maximal runs of equal mask values in order, without losing or repeating an element; circular splitting joins the last and first run when they match, and asking for only true or only false runs returns exactly those.",
  "inputs", "all masks and arrays (mask length bounded in the proof), all options",
  "Tests split two masks; empty runs, single runs and wrap-around are separate cases.",
  "helpers.py", [("split", "helpers.py:boolean_split")], note="Array values are arbitrary; the mask length is at most 5. ")
P("H07", "Image statistics are exact and ignore masked cells",
  "Normalised arrays have mean zero and variance one by a positive affine map. A cumulative distribution gives for each distinct value the fraction of values up to it, and matching to a distribution maps every value to the equal quantile. Masked Gaussian and maximum filters depend only on unmasked cells and change masked cells only on request. Inputs are not modified.",
  "inputs", "all arrays, masks and distributions",
  "Tests compare single small arrays; a masked value leaking in depends on its value and place.",
  "helpers.py", [("normalize", "helpers.py:normalize"), ("cdf", "helpers.py:compute_cdf"), ("match", "helpers.py:match_cdf"), ("filters", "helpers.py:gaussian_filter"), ("filters", "helpers.py:maximum_filter")], note=BOUNDED)
P("H08", "Datetime ranges, nearest neighbours and selections are exact",
  "A datetime range holds start, start plus step and so on up to and including the last not after the end. The nearest neighbour among sorted values is truly nearest, for any number of values. Selected datetimes are exactly those within the inclusive window that, when snapping, are nearest to some aligned time and within the maximum distance; distances between datetimes are absolute seconds.",
  "inputs schedules", "all sorted sequences, windows, steps, alignments and limits",
  "Tests select from five datetimes; boundaries, offsets and ties depend on the sequence.",
  "helpers.py", [("range", "helpers.py:datetime_range"), ("nearest", "helpers.py:sorted_nearest"), ("selection", "helpers.py:select_datetimes"), ("distance", "helpers.py:pairwise_distance_datetimes")], note=BOUNDED)
P("H09", "Rasterized points and polygon masks cover exactly their cells",
  "Rasterizing points gives each touched cell the mean of the values of its points, for one or many value columns, leaving all other cells and the inputs unchanged. A polygon mask marks exactly the cells whose centre is inside some polygon and outside every hole.",
  "inputs", "all point sets, values and polygons",
  "Tests rasterize one point set; order, repetition and value dimensions vary in use.",
  "helpers.py", [("points", "helpers.py:rasterize_points"), ("polygons", "helpers.py:polygons_to_mask")], note=BOUNDED)

P("R01", "Grid, image and map coordinates convert consistently and snap exactly",
  "Map, image (u, v), array (row, column) and flat-index coordinates of a grid convert into each other exactly and back, with integer array indices at cell centres, whatever the direction of either axis. A point inside the grid (right and bottom bounds included) snaps to the cell that holds it, snapping to edges, centres or both moves to the nearest such position, snapped boxes have their corners on the nearest cell edges, and a point is in bounds exactly when within the closed limits.",
  "inputs", "all grid sizes, limits in either direction, points and boxes",
  "Tests use one small grid; direction, edges, outer bounds and rounding depend on the numbers.",
  "raster.py", [("map to image", "raster.py:Grid.xyz_to_uv"), ("map to array", "raster.py:Grid.xy_to_rowcol"), ("snap", "raster.py:Grid.snap_xy"), ("snap box", "raster.py:Grid.snap_box"), ("bounds", "raster.py:Grid.inbounds_xy")])
P("R02", "Grid attributes always follow from size and limits",
  "Cell size, bounding box, cell-centre vectors and matrices always follow from the current size and outer limits, however the grid was given (limits, vectors or matrices, ascending or descending), after any assignment, shift, resize or copy, and whether or not they were read before. Shifting a raster moves its coordinates and values by exactly the given amounts, and changing a copy never changes the original. Invalid sizes and limits are rejected.",
  "inputs histories", "all grids and rasters, all assignments, shifts and scales",
  "Tests read attributes of a few fresh grids; stale caches and shared arrays show only after particular sequences.",
  "raster.py", [("construction", "raster.py:Grid._parse_xy"), ("limits", "raster.py:Grid.xlim"), ("caches", "raster.py:Grid._clear_cache"), ("shift", "raster.py:Raster.shift")])
P("R03", "Crops, subsets and tiles keep each cell's position and value",
  "Cropping to limits keeps exactly the cells that overlap them, subsetting by indices or slices (negative, stepped or reversed included) selects the same cells as the array, cropping to data keeps the smallest block with all data, and every kept cell keeps its map position and value. Cropping by value makes exactly the values outside the range missing. Tiles cover the grid in order, each cell exactly once without overlap, extended by exactly the requested overlap inside the grid.",
  "inputs", "all rasters, limits, slices, data masks, tile sizes and overlaps",
  "Tests crop one raster; each edge case (cell edges, outer bounds, direction, step) is its own arithmetic.",
  "raster.py", [("crop", "raster.py:Grid.crop_extent"), ("subset", "raster.py:Raster.__getitem__"), ("data", "raster.py:Raster.data_extent"), ("tiles", "raster.py:Grid.tile_indices")], note=BOUNDED)
P("R04", "Sampling interpolates between cell centres at points and on grids",
  "Sampling at points or on a grid of coordinates gives the bilinear interpolation between cell centres (nearest value for order 0), extended linearly to the outer bounds, the same either way and for axes in either direction, with single rows or columns constant across. Points out of bounds raise an error or take the fill value as requested, samples that depend on a missing cell are missing, splines of any order pass through the cell values, and sampling changes neither the raster nor its inputs.",
  "inputs", "all rasters, points, axes, orders and out-of-bounds settings (sampled)",
  "Tests sample one smooth raster inside its bounds; extremes, gaps, single rows and directions take other paths.",
  "raster.py", [("sample", "raster.py:Raster.sample"), ("grid", "raster.py:Raster._sample_grid"), ("one dimension", "raster.py:Raster._sample_1d"), ("resample", "raster.py:Raster.resample")],
  note=BOUNDED)
P("R05", "A changed raster behaves like a new one with its values and limits",
  "After any sequence of operations (shift, resize, crop, resample, fill, assignment of values or limits, copies, subsets) interleaved with reads, a raster's coordinates, bounds, samples and indices equal those of a raster made afresh from its current values and limits. Operations on a copy never change the original.",
  "histories", "all operation sequences (sampled) on rasters up to 7 x 7 cells",
  "Tests call each operation once on a fresh raster; stale interpolators and coordinates need a read before and after.",
  "raster.py", [("caches", "raster.py:Raster.array"), ("interpolator", "raster.py:Raster.Zf"), ("limits", "raster.py:Grid.xlim"), ("shift", "raster.py:Raster.shift")],
  note=BOUNDED)
P("R06", "Rasterized features, viewsheds and horizons match the raster's cells",
  "Rasterized points give the mean in each touched cell and every other cell is not-a-number; polygon masks hold the cells whose centres are inside; a filled circle holds the cells within its radius. Along each axis a cell is visible exactly when its sight angle, with optional curvature and refraction, exceeds all nearer ones, the viewshed does not depend on orientation, scale or datum, and the horizon is the cell of greatest sight angle in each direction unless it is the last. Missing cells are never visible nor horizon.",
  "inputs", "all rasters, features, viewing positions inside or outside, headings and corrections (sampled)",
  "Tests view one elevation model; direction, missing cells, corrections and outside origins take other paths.",
  "raster.py helpers.py", [("points", "raster.py:Raster.rasterize"), ("polygons", "raster.py:Raster.rasterize_polygons"), ("circle", "raster.py:Raster.fill_circle"), ("viewshed", "raster.py:Raster.viewshed"), ("horizon", "raster.py:Raster.horizon")],
  note=BOUNDED, level="exploration", tech=TECH_RT)
P("R07", "Raster time series interpolate linearly with propagated uncertainty",
  "A raster interpolated at a coordinate comes from the nearest rasters on either side (or the two nearest when extrapolating) and each value is linear between theirs, equal to the raster itself at its own coordinate, with standard deviation propagated as documented; missing values stay missing. Resolution and extent are the coarsest and the intersection unless requested, the input rasters are never modified, and coordinates not bracketed are rejected unless extrapolating.",
  "inputs", "all series of numbers, rasters and dates; coordinates, limits, cell sizes and functions",
  "Tests interpolate two rasters halfway; order, exact hits, extrapolation and differing grids differ.",
  "raster.py", [("bracketing", "raster.py:RasterInterpolant.nearest"), ("interpolation", "raster.py:RasterInterpolant._interpolate"), ("call", "raster.py:RasterInterpolant.__call__")], note=BOUNDED)
P("R08", "Raster files round trip with their georeference",
  "A raster written to file and opened again has the same values, type, limits and cell size; missing values survive through the given no-data value, and a given value is read as missing. Reading a window returns exactly those cells, cached or not, and never changes what the raster holds; opening with crop limits equals cropping in memory, and windows out of bounds are rejected.",
  "inputs histories", "all rasters, types, windows, no-data values and reading orders (sampled)",
  "Tests read one 2 x 2 file; windows, caches and no-data values combine.",
  "raster.py helpers.py", [("write", "raster.py:Raster.write"), ("open", "raster.py:Raster.open"), ("read", "raster.py:Raster.read"), ("file", "helpers.py:write_raster")],
  note=BOUNDED, level="exploration", tech=TECH_RT)


P("T01", "Motion models start and evolve particles as documented",
  "Each motion model draws particles from its stated distribution: positions about xy with the surface elevation plus its uncertainty at that position, and velocities about the given mean (Cartesian or cylindrical components). Evolving by a time interval moves every particle by its velocity and acceleration over that interval measured in the model's time unit and updates velocity accordingly; tangent models keep every particle on the surface. Each particle changes only with its own draws; stationary particles stay valid; a surface may be a number, and its uncertainty absent.",
  "inputs histories", "all models, means and spreads, random draws, particle clouds of any size, time intervals (either sign), surfaces",
  "Tests never evolve particles; unit, sign and order errors only show in the numbers, for spreads and intervals that are not one.",
  "track/motion.py",
  [("Cartesian", "track/motion.py:CartesianMotion.evolve_particles"), ("cylindrical", "track/motion.py:CylindricalMotion.evolve_particles"), ("tangent Cartesian", "track/motion.py:TangentCartesianMotion.evolve_particles"), ("tangent cylindrical", "track/motion.py:TangentCylindricalMotion.evolve_particles"), ("initial particles", "track/motion.py:Motion.initialize_particles")])
P("T02", "Particle likelihoods measure surface and image agreement",
  "A particle's negative log likelihood from the surface is half its squared elevation difference in units of the surface uncertainty at its position, and zero where that uncertainty is zero; there is none without surface uncertainty. From an image it is the mean squared difference between the observer's template and the image around the particle's projected position, each with the same preprocessing, interpolated between pixels, over twice the observer's variance. The image area searched covers every particle and stays within the image; when it does not, or without an image, the observer is skipped.",
  "inputs", "all clouds of particles, surfaces, templates, cameras (as any projection), search tiles",
  "Tests track two synthetic images and look at speed; half-pixel offsets and swapped axes remain within the noise.",
  "track/motion.py track/tracker.py",
  [("surface", "track/motion.py:CartesianMotion.compute_log_likelihoods"), ("image", "track/tracker.py:Tracker.compute_observer_log_likelihoods"), ("template", "track/tracker.py:Tracker.initialize_template"), ("tile", "track/tracker.py:Tracker.extract_tile")],
  note=BOUNDED)
P("T03", "Particle weights and moments follow from likelihoods",
  "Weights are the exponential of minus the sum of the negative log likelihoods of every observer with an image and of the motion model, kept above zero by a negligible constant; an observer (or model) without likelihoods does not contribute, and without any, weights stay as they were. Initial weights are equal. The mean, covariance and standard deviation of the particles are their weighted moments for any positive weights, whether or not normalised. Particles with missing values, or outside the viewshed if one is given, are rejected. Nothing else of the state changes.",
  "inputs histories", "all particle clouds, likelihoods (including none), observers and images, viewsheds",
  "Tests check that means are finite; normalisation, missing observers and order of operations need particular likelihoods.",
  "track/tracker.py",
  [("weights", "track/tracker.py:Tracker.update_weights"), ("mean", "track/tracker.py:Tracker.particle_mean"), ("covariance", "track/tracker.py:Tracker.particle_covariance"), ("sigma", "track/tracker.py:Tracker.compute_particle_sigma"), ("validity", "track/tracker.py:Tracker.test_particles")])
P("T04", "Resampling keeps particles in proportion to their weight",
  "Resampling returns as many particles as before, each a copy of an existing one together with its weight, chosen by the documented scheme: systematic and stratified take the particle whose share of the cumulative weight contains each (jittered) tooth of a regular comb, residual takes at least the whole number of expected copies of each and the rest by the remainders, and choice draws independently with the given probabilities. It never fails for valid weights.",
  "inputs", "all particle clouds, positive weights, methods and random draws",
  "Tests run the default method once; bias and out of range indices depend on the draw and rounding.",
  "track/tracker.py", [("resampling", "track/tracker.py:Tracker.resample_particles")], note=BOUNDED)


P("T05", "Observers order, find, align and sample their images",
  "An observer holds two or more images strictly increasing in time and rejects anything else. A time finds the nearest image within the allowed difference, or none (an error); an image finds its own place. A tile box has the requested whole-pixel size, lies within the image and is centred on the point to half a pixel, and boxes off the image are rejected. Shifting a tile by up to half a pixel or sampling it at image coordinates evaluates the tile's own spline at those positions whatever the size of its cells, leaves the tile as given, and rejects points off the tile. Subsets and splits hold every image between their limits in order, consecutive parts sharing as many images as asked.",
  "inputs", "all image times, query times, limits, image and tile sizes, points, shifts, boxes, numbers of parts, breaks and overlaps",
  "Tests never exercise observers apart from tracking; rounding, ties and cells other than one pixel take other paths.",
  "track/observer.py raster.py helpers.py",
  [("images", "track/observer.py:Observer.__init__"), ("index", "track/observer.py:Observer.index"), ("tile box", "track/observer.py:Observer.tile_box"), ("shift", "track/observer.py:Observer.shift_tile"), ("sample", "track/observer.py:Observer.sample_tile"), ("split", "track/observer.py:Observer.split")], note="Number of images: two to four in the proofs of construction and search. " + BOUNDED)
P("T06", "Tracks follow the particle filter step by step",
  "Tracking visits the given times in order (or all image times), without repeats and without times no observer has an image for, each image matched to the nearest time within the limit. Each track starts from fresh particles at the first time one of its observers has an image and ends at the last, values elsewhere being missing. Between, particles evolve by the elapsed time, each observer gets its template once, at its own first image and from the particles as they are then, later images weigh the particles, which are then resampled, and the recorded mean, spread and (if asked) particles are those after that step. Errors and warnings of one of several tracks are recorded with it and leave the others untouched; one alone raises. Observers masked out for a track, or without images, play no part, and processes change nothing but speed.",
  "inputs histories schedules", "all image times, requested times in either order, limits, masks, numbers of tracks, failing and warning models, kinds of results (sampled); image work and motion replaced by recording stand-ins",
  "Tests never run the tracker; order of steps, gaps, masks and failures need particular histories.",
  "track/tracker.py track/tracks.py helpers.py",
  [("track", "track/tracker.py:Tracker.track"), ("times", "track/tracker.py:Tracker.parse_datetimes"), ("matching", "track/tracker.py:Tracker.match_datetimes")], note=BOUNDED)
P("T07", "Tracks report positions, velocities and spreads consistently",
  "Tracks return positions and velocities as the matching parts of the particle means, and their standard deviations either directly or as the square root of the variances on the diagonal of the covariances, or nothing when neither is known. The end points of every track are its first and last times with a position, for any selection of tracks, and every track has exactly one error and one warnings entry, successful if and only if without error.",
  "inputs", "all numbers of tracks and times, missing positions, selections, errors and warnings",
  "Tests never build tracks; the covariance path and ragged warnings are reached only by particular options.",
  "track/tracks.py",
  [("moments", "track/tracks.py:Tracks.xyz_sigma"), ("velocity", "track/tracks.py:Tracks.vxyz_sigma"), ("end points", "track/tracks.py:Tracks.endpoints"), ("records", "track/tracks.py:Tracks.__init__")], note=BOUNDED)


P("O01", "Camera parameter selections free exactly the chosen elements",
  "A selection of camera parameters (all, some by index, or none of each attribute) frees exactly the chosen elements of the camera vector and no other. Limits given for them apply element by element, finite defaults stand in for missing ones, and the remaining slots keep the defaults. Labels name the attribute and element of each free slot, in order.",
  "inputs", "all attributes, selections (booleans, index, list, array, empty), limits (scalar, list, missing, not a number)",
  "Tests parse a few fixed selections; empty, unordered and array selections and missing limits take other branches.",
  "optimize.py",
  [("selection", "optimize.py:Cameras.parse_params"), ("labels", "optimize.py:Cameras._lmfit_labels"), ("default bounds", "optimize.py:Cameras.camera_bounds")])
P("O02", "Camera optimisation sees each parameter where it belongs",
  "Setting the parameters of a camera model puts every value in its slot of its camera or of every camera of its group, moves nothing else, and resetting restores the saved state exactly. Trial predictions use the trial cameras and leave the cameras as they were, even when they fail. Residuals are predicted less observed for the selected observations, scaled by weights where asked. Starting values come from the cameras and bounds are the tightest of all members of a group. The sparsity structure marks every residual a parameter can change. Controls of other cameras are dropped, and models with cameras without controls, different image sizes in a group or overlapping parameters are refused.",
  "inputs histories", "three cameras in overlapping groups with any vectors, parameters, weights, bounds and scales; controls as any projection",
  "Tests fit one or two models and look at the final error; a misplaced parameter or a false zero of the Jacobian still converges somewhere.",
  "optimize.py",
  [("set", "optimize.py:Cameras.set_cameras"), ("reset", "optimize.py:Cameras.reset_cameras"), ("predicted", "optimize.py:Cameras.predicted"), ("residuals", "optimize.py:Cameras.residuals"), ("parameters", "optimize.py:Cameras.update_params"), ("sparsity", "optimize.py:Cameras._build_sparsity"), ("controls", "optimize.py:Cameras.prune_controls")])
P("O03", "Controls compare observed and projected image coordinates",
  "Points predict the projection of their own world coordinates (or directions, or refuse a camera elsewhere), lines the nearest projected point of the world lines sampled at the asked density wherever in view, matches the projection into one camera of the rays of the other; any selection of observations selects the same predictions. Resizing scales observed coordinates with the image over any sequence of sizes. Filtering matches keeps exactly those within every criterion, with their coordinates, weights and order, and gives up none else.",
  "inputs histories", "all points, lines, matches, weights, limits, selections and image sizes; cameras as any projection",
  "Tests predict for one fixed camera; selections, repeated resizes and combined filters change which rows pair up.",
  "optimize.py helpers.py",
  [("points", "optimize.py:Points.predicted"), ("lines", "optimize.py:Lines.predicted"), ("matches", "optimize.py:Matches.predicted"), ("resize", "optimize.py:Matches.resize"), ("filter", "optimize.py:Matches.filter")], note=BOUNDED)
P("O04", "Rotation matches agree with general matches in every form",
  "For cameras of one position and fixed internal parameters, matches held as image coordinates, camera coordinates or rays make the same prediction as the general ones, each in its own coordinates, whether built from image or camera coordinates. Conversions between forms keep cameras, weights and coordinates. Directions may change afterwards; moving a camera or changing its internal parameters is refused.",
  "inputs histories", "all matches, orientations, focal lengths, centres and image sizes, weights, forms, changed parameters",
  "Tests compare forms for one pair of cameras; selections, conversions without image coordinates and later changes are not reached.",
  "optimize.py",
  [("predicted", "optimize.py:RotationMatches.predicted"), ("camera coordinates", "optimize.py:RotationMatchesXY.predicted"), ("rays", "optimize.py:RotationMatchesXYZ.predicted"), ("conversion", "optimize.py:RotationMatches.to_type"), ("internals", "optimize.py:RotationMatches._test_internals")])
P("O05", "Consensus fitting returns the best accepted model",
  "Random sample consensus tries different samples of the asked size, as many as asked for or possible, and returns, among the fits with enough further observations within the error limit, the one with the least mean error over its consensus refitted to it, together with exactly the observations within the limit; it fails only if no sample is accepted. Polynomial fits minimise the squared error and their errors are absolute differences from the observations selected.",
  "inputs", "all errors, limits, minimum numbers of inliers and samples; polynomials of degree zero to three",
  "Tests run it on one line with outliers; ties, refits that lose their inliers and small sets need particular errors.",
  "optimize.py",
  [("ransac", "optimize.py:ransac"), ("samples", "optimize.py:_ransac_samples"), ("polynomial", "optimize.py:Polynomial.fit")], note=BOUNDED)
P("O06", "Keypoint matching pairs images and features consistently",
  "Matched keypoints are nearest in descriptor space, pass each criterion asked for, and rows of coordinates and ratios belong together. Matching images covers exactly the pairs asked for by sequence, maximum separation or required images, each in its cell of the matrix of matches; whatever images are dropped, keypoints, matches and clusters stay aligned with the remaining ones. Keypoints and matches kept in files are read back as computed, unless overwriting is asked for.",
  "inputs histories", "random sets of descriptors, numbers of images, pairs, drops, conversions and files (sampled)",
  "Tests match one pair of images; combinations of selections, files and drops are never run.",
  "optimize.py",
  [("features", "optimize.py:match_keypoints"), ("pairs", "optimize.py:KeypointMatcher.build_matches"), ("keypoints", "optimize.py:KeypointMatcher.build_keypoints"), ("drop", "optimize.py:KeypointMatcher.drop_images"), ("breaks", "optimize.py:KeypointMatcher.match_breaks")], note=BOUNDED)
P("O07", "Fits recover the cameras that made the observations",
  "Fitting cameras to observations made with known parameters recovers them (to the tolerance of the solver) for any parameters freed, groups, weights, scales or sparsity, and leaves the cameras as they were; fitting rotations of an observer to matches of its images recovers their directions relative to the anchors.",
  "inputs", "random scenes of one to three cameras, points, lines and matches (sampled); solvers trusted for convergence only near the solution",
  "Tests fit fixed scenes; options of the solver change what is fitted.",
  "optimize.py",
  [("fit", "optimize.py:Cameras.fit"), ("observer", "optimize.py:ObserverCameras.fit")], level="exploration", tech=TECH_RT, note=BOUNDED)


P("V01", "External camera models project by their published equations",
  "The Matlab (Bouguet), Agisoft Metashape, OpenCV and PhotoModeler camera models map between camera and image coordinates by the equations their software publishes, for all parameters; where only the inverse is published, points that map back are exact.",
  "inputs", "all parameters, image sizes and points",
  "Tests compare conversions of one camera per format; a swapped coefficient that is zero there is invisible.",
  "convert/cameras/matlab.py convert/cameras/agisoft.py convert/cameras/opencv.py convert/cameras/photomodeler.py",
  [("matlab", "convert/cameras/matlab.py:Matlab._xy_to_uv"), ("agisoft", "convert/cameras/agisoft.py:Agisoft._xy_to_uv"), ("opencv", "convert/cameras/opencv.py:OpenCV._xy_to_uv"), ("photomodeler", "convert/cameras/photomodeler.py:PhotoModeler._uv_to_xy")])
P("V02", "Converted cameras project alike where a conversion is exact",
  "A camera converted to or from an external model projects every point to the same image point whenever the two models can express each other; parameters without counterpart are left out and nothing of the source is changed. Converting there and back gives the same camera.",
  "inputs", "all parameters of both models, image sizes and points",
  "Tests convert one camera; signs, offsets and factors that cancel for it go unnoticed.",
  "convert/cameras/matlab.py convert/cameras/agisoft.py convert/cameras/opencv.py convert/cameras/photomodeler.py",
  [("matlab", "convert/cameras/matlab.py:Matlab.to_camera"), ("agisoft", "convert/cameras/agisoft.py:Agisoft.to_camera"), ("opencv", "convert/cameras/opencv.py:OpenCV.to_camera"), ("photomodeler", "convert/cameras/photomodeler.py:PhotoModeler.to_camera")])
P("V03", "Converters fit exactly the chosen parameters to the residuals",
  "The residuals of a converter are the differences of the image points of the two cameras over a regular grid in the source image. Optimising the target changes only the parameters asked for (by name, index or selection), never increases the squared residuals, and recovers a target that can express the source. Calibration reports of the external software are read as written, with their deviations.",
  "inputs", "all cameras, grids and selections of parameters (residuals); random ones (optimisation)",
  "Tests optimise one model with default selections.",
  "convert/converter.py",
  [("residuals", "convert/converter.py:Converter.residuals"), ("external", "convert/converter.py:Converter.optimize_xcam"), ("camera", "convert/converter.py:Converter.optimize_cam")], note=BOUNDED)
P("S01", "Vertices of annotation paths follow the SVG standard",
  "Every vertex of a path is where the standard puts it: absolute or relative to the current point, in its own subpath, closed to the start of that subpath, for every command, repetition, and way of separating numbers. Unknown commands are refused.",
  "inputs", "paths of three commands with all numbers (proved); paths of any length and layout (sampled)",
  "Tests parse a few paths; relative commands after a closed subpath need particular sequences.",
  "svg.py",
  [("paths", "svg.py:Points._from_path"), ("numbers", "svg.py:Points.from_element")], note=BOUNDED)
P("S02", "Annotation shapes survive transforms, writing and reading",
  "Transform functions move every point as written, with the scale, offset or matrix given; bounding boxes hold every point; shapes written as elements and read back have the same points and remain closed or open.",
  "inputs", "up to three points and two functions with all numbers (proved); any number (sampled)",
  "Tests transform one shape by one function.",
  "svg.py",
  [("transform", "svg.py:Points.transform"), ("write", "svg.py:Points.to_element"), ("read", "svg.py:Points.from_element")], note=BOUNDED)
P("S03", "Annotation files are parsed into their groups and image coordinates",
  "Parsing an annotation file gives the points of every chosen element, under their groups and names, in the coordinates of the image at its size, whatever groups, transforms and placement of the image surround them, whether the file is indented or not.",
  "inputs histories", "random files of nested groups, sizes and transforms (sampled)",
  "Tests parse one file.",
  "svg.py",
  [("read", "svg.py:read"), ("write", "svg.py:write")], note=BOUNDED)
P("I01", "Images combine settings, metadata and pixels consistently",
  "Settings given for an image win over its metadata, which is read once and only when needed. Reading returns the image at the size of its camera, or the box asked for, after any sequence of resizes, crops and cached reads; written images read back the same. Projected images hold, at every pixel, the source image where the ray of that pixel falls, or nothing outside; cameras elsewhere are refused. Projections of the image are those of its camera.",
  "inputs histories", "all combinations of settings; one read from every state of cache, size and box (inductive); all cameras and images as any functions",
  "Tests read one image at two sizes; stale caches, crops of resized images and missing settings need sequences or combinations.",
  "image.py",
  [("settings", "image.py:Image.__init__"), ("read", "image.py:Image.read"), ("project", "image.py:Image.project"), ("write", "image.py:Image.write")], note=BOUNDED)
P("E01", "Image metadata are parsed and written back faithfully",
  "Rational tags are quotients, and missing, zero or undefined ones are missing; dates carry their fraction of a second; sensor sizes follow make and model. Tags inserted into an image are read back, the pixels and the given tags unchanged; unknown groups and tags are refused.",
  "inputs histories", "all rational and whole-number tags (proved); random dates, texts and sets of tags in scratch images (sampled)",
  "Tests read one image.",
  "exif.py",
  [("tags", "exif.py:Exif.parse_tag"), ("date", "exif.py:Exif.datetime"), ("dump", "exif.py:Exif.dump"), ("insert", "exif.py:Exif.insert")], note=BOUNDED)
P("J01", "Helper files and names keep what they are given",
  "Objects written as JSON or pickle, with any options, are read back equal; flat arrays change only the layout and put arrays of scalars on one line. Names lose only their folder and the asked number of extensions, types give their exact limits, files their drivers, and every form of a reference system the same system. Elevation corrections fall with the square of the distance by curvature less refraction.",
  "inputs", "random nested objects, options, names and types (sampled); all distances, radii and refractions (proved)",
  "Tests write a few fixed objects; text with brackets, separators and nested arrays take other branches.",
  "helpers.py",
  [("json", "helpers.py:write_json"), ("pickle", "helpers.py:write_pickle"), ("names", "helpers.py:strip_path"), ("corrections", "helpers.py:elevation_corrections")], note=BOUNDED)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["rec"]) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["rec"]["id"],
                "quick_cmd": f"./check.sh {p['rec']['id']} quick",
                "thorough_cmd": f"./check.sh {p['rec']['id']} thorough",
                "technique": p["tech"], "level": p["level"], "level_note": p["note"],
            }
            for p in PROPS if p["rec"]["id"] not in [n["property"] for n in NA]
        ],
        "not_applicable": NA,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    for p in PROPS:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]


if __name__ == "__main__":
    main()
