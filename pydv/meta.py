"""Per-property metadata: what is specified, trusted, assumed and bounded.

Feeds the evidence files (run.py), MANIFEST.json (tools/gen_manifest.py) and the per-property
part of DESIGN.md (tools/gen_design.py)."""
COMMON_TRUSTED = [
    "pydv extraction and symbolic evaluator (cross-checked on every run by executing the same contracts on the real code)",
    "CPython semantics of the statements executed; numpy indexing/reshape/matmul on object arrays",
    "numpy.linalg.solve/det contracts: exact solution / exact determinant",
    "numba-compiled code computes what its Python source says",
    "z3 4.x (path feasibility and inequality obligations only)",
]
COMMON_ASSUMPTIONS = [
    "machine arithmetic is treated as exact real arithmetic; decimal tables are accepted to a relative 1e-11",
]
SHAPELY = "shapely: attributes (exterior, interiors, coords, bounds, geoms) return what they name"
AFFINITY = "shapely.affinity translate/rotate/scale move every vertex by the named map, keep the rings and their order"
SETOPS = ("shapely | & ^ - and unary_union return a geometry (polygon, multi-polygon, collection with lower-dimensional "
          "debris, line, point or empty polygon) whose polygons cover exactly the set combination")
REPOINT = "shapely representative_point lies inside its polygon; contains decides membership"
ROUND = "round() is exact: contracts are stated before the rounding of coordinates to the geometry's tolerance"
SOLVER = "the linear solvers return the unique solution of the system they are given (their own contract is C19)"
RICH = "rich progress displays only display"
ELEM = "element methods are known by the contracts proved in C01-C05 (uninterpreted functions of element and arguments)"
DEFAULT_NOTE = ("Every obligation generated from the extracted source is discharged for all inputs (exact arithmetic); "
                "the same contracts also run on the real code with random inputs, which replays counterexamples.")
NOT_APPLICABLE: dict = {}

META: dict = {}


def m(pid, spec, reach, trusted=(), assumptions=(), bounded=(), note=None):
    META[pid] = {
        "spec": spec, "reach": reach, "trusted": list(trusted), "assumptions": list(assumptions),
        "bounded": list(bounded), "explanation": spec,
        "note": note or (DEFAULT_NOTE + (" Bounded parts, not counted as proved: " + "; ".join(bounded) + "." if bounded else "")),
    }


m("C01",
  "Postcondition of Tri6.geometric_properties: the six totals equal the exact integrals of 1, y, x, y^2, x^2, xy over the "
  "triangle (closed forms in the corner coordinates), for symbolic corner coordinates with positive area; frame: element, "
  "material and cached tables unchanged; repeated_calls: the same after any other element method (hidden state).",
  "all triangles at once: the obligation is a polynomial identity in six coordinates, decided by normal forms")
m("C02",
  "shape_function reproduces every quadratic field and its gradient at every natural coordinate and returns the area as "
  "Jacobian; local_coord inverts the natural map; point_within_element is the conjunction of three sign conditions; "
  "histories of interleaved calls on two elements change nothing (the functions are cached with arrays as results).",
  "identities over all elements, points and fields, plus a symbolic call history that exposes aliasing of cached arrays")
m("C03",
  "torsion_properties: k, f, c equal the exact integrals of grad Ni.grad Nj, grad Ni.(y,-x), Ni times the modulus. "
  "assemble_torsion: for any number of elements, any numbering, the bordered matrix and load are the scatter-add of the "
  "element results (loop invariant: fold over an abstract element sequence), symmetric, with the constraint row.",
  "unbounded in the number of elements; triplet lists are compared chunk by chunk as abstract sequences",
  trusted=["scipy coo/csc constructors sum duplicate triplets", ELEM],
  bounded=["runtime monitor assembled_torsion: random meshes against a dense reference"])
m("C04",
  "shear_load_vectors, shear_warping_integrals, shear_coefficients, monosymmetry_integrals equal Pilkey's integrals, "
  "for all coordinates, nodal fields, nu and inertias; where the documented rule is inexact (shear coefficients for "
  "nu != 0: degree 4 on 4 points, as documented) the contract is the documented four-point value.",
  "polynomial identities in up to 60 symbols; signs, cross terms and node order are all visible")
m("C05",
  "element_stress: every one of the eleven components at each of the six nodes equals the analytical field of its action, "
  "extrapolated as documented, times the action, for arbitrary section constants; weights; no-warping frame condition.",
  "all actions and section constants symbolic: cross-terms with I_xy, principal axes and Poisson terms cannot cancel")
m("C06",
  "local_element_stress interpolates the combined nodal stresses quadratically (any nodal values); axial and bending parts "
  "are the analytical linear field; get_stress_at_points walks any query result: none outside, the element's value inside, "
  "consistent averages on shared edges (0, 1, 2, 3 elements met).",
  "interpolation is proved for all points and fields; the composition over the tree query by its contract",
  trusted=["shapely STRtree query('intersects') returns the elements whose closed triangle holds the point (checked at run time)", ELEM],
  bounded=["points met by at most three elements in the symbolic leg", "runtime monitors points / outside"])
m("C07",
  "calculate_geometric_properties and calculate_frame_properties accumulate, over an abstract element sequence (any length, "
  "any material), area, mass, ea, ga, first and second moments; effective moduli and nu; perimeter from the geometry; "
  "again from any earlier state, with or without progress reporting.",
  "loop invariant as a fold: no bound on the mesh; havocked initial state covers stale accumulators",
  trusted=[ELEM, RICH], bounded=["runtime monitor totals"])
m("C08",
  "Elastic centroid, centroidal inertias, radii of gyration are the documented functions of the totals; lemma over C01+C07 "
  "contracts: a rigid shift moves the centroid and leaves the centroidal values.",
  "the shift lemma quantifies over every element and every shift", trusted=[ELEM, RICH], bounded=["runtime monitors centroidal, shifted"])
m("C09",
  "Principal inertias and angle: rotating (Ixx, Iyy, Ixy) by phi gives (I11, I22, 0) with I11 >= I22; the degenerate case; "
  "principal_coordinate and global_coordinate are mutually inverse rotations; lemma: turning every element turns phi.",
  "trigonometric identities on symbolic inertias, all quadrants by path splitting",
  trusted=[ELEM, RICH], assumptions=["arctan2 contract: cos and sin of the result are the normalised arguments"],
  bounded=["runtime monitors principal, rotated"])
m("C10",
  "Section moduli = inertia / extreme fibre distance over all nodes (abstract node sequence, extremum folds), both axes "
  "systems, both signs.", "extrema over any number of nodes; a sample shape cannot distinguish which extreme is used when symmetric",
  trusted=[ELEM, RICH], bounded=["runtime monitor moduli"])
m("C11",
  "Yield moments are the minimum over all groups, elements and nodes of the moment at which the node's normal stress "
  "reaches its material's yield strength (nested abstract sequences, extremum folds).",
  "unbounded groups/elements; per-material yield and sign cannot be separated on homogeneous samples",
  trusted=[ELEM, RICH], bounded=["runtime monitor yields"])
m("C12",
  "calculate_warping_properties executed on abstract elements moved to the centroid: J, shear centres (elasticity, Trefftz, "
  "principal), Gamma equal the documented functionals of the solver's fields; linear systems posed are exactly the documented "
  "ones (torsion, shear psi/phi); both solver branches, both progress modes; elements restored to their place.",
  "the FE fields are unknowns, so the identities hold for every mesh; sign and coupling terms are symbolic",
  trusted=[ELEM, SOLVER, RICH, "spilu/LinearOperator: a preconditioner does not change the solution"],
  bounded=["runtime monitors torsion_warping, renumbered, moved_warping (independent FE oracle)"])
m("C13",
  "Shear areas (global and principal) and monosymmetry constants are the documented functionals, from the same symbolic "
  "execution as C12.", "as C12", trusted=[ELEM, SOLVER, RICH], bounded=["runtime monitor shear_areas"])
m("C14",
  "calculate_frame_properties and the geometric-then-warping analysis of the same abstract section give the same values "
  "for every returned quantity and for the stored J; returned tuple = stored values.",
  "relational obligation between two executions of the real code on one abstract section",
  trusted=[ELEM, SOLVER, RICH], bounded=["runtime monitors frame, frame_args"],
  assumptions=["refinement of the statement: the iterative solver may refuse very small sections (scipy's absolute breakdown test)"])
m("C15",
  "calculate_combined_stresses: every combination is the documented sum/magnitude/principal/von Mises value at any number of "
  "nodes; calculate_stress is linear in the eight actions, with composite axial rigidity, for any groups and elements.",
  "pointwise folds over abstract nodes; actions symbolic", trusted=[ELEM, RICH],
  bounded=["runtime monitors superposition, resultants (integrated back to the actions), fields"])
m("C16",
  "Each material group's nodal stresses are the weighted average over the group's own elements only, zero where the group has "
  "none; get_stress has one entry per material and every key holds its own array.",
  "scatter-add folds over abstract numbering, groups and elements", trusted=[ELEM, RICH],
  bounded=["runtime monitors partition, averages"])
m("C17",
  "Every get_* accessor on a section with arbitrary stored results: geometric-only section returns the value and refuses the "
  "composite accessor (and conversely), the reference modulus divides exactly the documented powers, several materials.",
  "all accessors x configurations with symbolic stored values", bounded=["runtime monitor accessors"])
m("C18",
  "Typestate: each accessor raises unless its analysis stored its results, whatever else is stored; each analysis refuses to "
  "run before its prerequisite and then stores nothing; a later stress analysis leaves earlier StressPost results alone; "
  "an analysis that fails leaves no value behind that it did not compute.",
  "contracts over every combination of stored results instead of the histories a test runs",
  trusted=[ELEM, RICH], bounded=["runtime monitors: histories of up to 8 random calls, fault injection in the solver (failed_analyses)"])
m("C19",
  "solve_direct_lagrange / solve_cgs_lagrange: given the solver's contract, the returned field is the solution without its "
  "multiplier, and an error is raised exactly when the relative multiplier (either sign) exceeds the tolerance or the "
  "iteration did not converge.", "the multiplier and the field's largest entry are symbolic, all sign cases",
  trusted=["scipy spsolve and cgs return u with K u = b / info == 0 exactly at convergence"],
  bounded=["runtime monitors lagrange, plain, both_solvers"])
m("C20",
  "PlasticSection: squash loads of the two sides over any regions; evaluate_force_eq vanishes exactly at equal squash loads; "
  "plastic moments about the equal-area axis for x, y, 1, 2; conversion to global coordinates; shape factors; refusal when "
  "the root search does not converge; the analysis works on the geometry moved to its centroid.",
  "callee contracts for split_section and brentq; any number of regions",
  trusted=["scipy brentq: a root of f inside the bracket, f evaluated last at it (tolerances xtol = rtol = 1e-6)", "C21 contract of split_section"],
  bounded=["runtime monitors plastic, moved (exact clipping oracle)"])
m("C21",
  "create_line_segment (segment lies on the line and spans the bounding box), line_mx_plus_b, group_top_and_bottom_polys "
  "(every piece to the side of its interior point, any number of pieces), Geometry/CompoundGeometry.split_section (every piece "
  "keeps its material; nothing lost; non-polygons are errors).",
  "for all lines incl. vertical/horizontal and tiny direction vectors; tests cut a few shapes",
  trusted=["shapely.ops.split cuts a polygon by a line that crosses it (known finding C21-edge: it does not when the line runs along an edge)", REPOINT, SHAPELY],
  bounded=["runtime monitors split_known, split, split_args"],
  assumptions=["sliver pieces below the geometry's rounding tolerance are excluded (statement refined after a false alarm)"])
m("C22",
  "shift/rotate/mirror of Geometry and CompoundGeometry: every vertex of every ring (abstract rings), control point and hole "
  "moved by the same isometry about the same point (own box centre, compound centre, named point), material/tolerance kept, "
  "the original unchanged; involution lemmas.", "vertices, angle and centre symbolic; any number of regions",
  trusted=[AFFINITY, SHAPELY], assumptions=[ROUND], bounded=["runtime monitor transforms"])
m("C23",
  "align_to (all four sides, inner/outer, geometry or point) and align_center (geometry, point, origin; compound: "
  "modulus-weighted centroid): the named edge/centroid lands exactly on the target.",
  "all extents symbolic", trusted=[AFFINITY, SHAPELY], assumptions=[ROUND], bounded=["runtime monitors align, center"])
m("C24",
  "| & ^ - + of Geometry and CompoundGeometry: regions are exactly the polygons of the set combination with the documented "
  "material and tolerance; compound difference region by region; + keeps both operands in order.",
  "any number of polygons in a result; every result type of shapely's contract", trusted=[SETOPS, SHAPELY],
  bounded=["runtime monitor booleans (independent point-membership oracle)"])
m("C25",
  "create_points_and_facets, create_facets_and_control_points, compile_geometry, CompoundGeometry.__init__, from_points: the "
  "facets are exactly the rings (any length), no duplicate points in a compound, one hole point in every void, one control "
  "point per region; from_points inverts them.",
  "loops over generic regions, points and facets with invariants", trusted=[SHAPELY, SETOPS, REPOINT, "more_itertools.peekable contract"],
  bounded=["number of holes of a region 0-3 (points per ring unbounded)", "from_points: up to 3 rings/regions of 3-5 points", "runtime monitors points and facets, round trip"],
  assumptions=["voids narrower than the geometry's rounding tolerance are not claimed"])
m("C26",
  "pre.create_mesh and create_mesh hand Triangle exactly the geometry's data, one size per region (any number), the stated "
  "flags; Section.__init__ gives every element its own nodes (o2 order), coordinates and the material of its region.",
  "argument flow proved for all data; Section.__init__ for any number of elements and nodes, arbitrary coordinates",
  trusted=["Triangle: conforming triangulation of the segments' interior minus holes, attribute of the region's point, o2 midside nodes"],
  bounded=["Section.__init__: one to three regions (elements and nodes unbounded)", "runtime monitor meshing (areas, materials, conformity)"])
m("C27",
  "check_geometry_overlaps: reported iff the shared area exceeds 1e-9 of the total, any number of polygons; "
  "check_geometry_disjoint: recursive walk with contract (visited grows to the connected component), any size; warnings of the "
  "warping and plastic analyses.", "the walk's contract is inductive; network construction bounded",
  trusted=[SETOPS], bounded=["network: every contact relation on up to four polygons", "runtime monitors"])
m("C28",
  "Every steel and primitive generator, all dimensions symbolic: outline vertices integrate exactly (area and moments) to the "
  "specified plates and fillets, inside the stated box, right orientation; draw_radius for any radius, sweep and number of "
  "points; refusals exactly for impossible dimensions.",
  "dimension-generic: a formula wrong off the tested aspect ratios is a failed polynomial identity",
  trusted=[AFFINITY, SHAPELY], bounded=["runtime monitors dimensions, refinement"],
  assumptions=["hand-written specifications of each section from its documentation (libspec.py)"])
m("C29",
  "Every Nastran section against its DIM definition: regions, holes, recovery points, refusals exactly as documented.",
  "all DIM values symbolic, admissible readings enumerated", trusted=[AFFINITY, SHAPELY],
  bounded=["runtime monitors nastran dimensions, nastran refusals"],
  assumptions=["positions are compared up to a common shift where the documented origin is not the built one (known finding C29-origin)"])
m("C30",
  "Concrete sections: outline, every bar's area, position, cover, number and material; bars replace concrete; Super-T, I-girder; "
  "CLT layers; timber; refusals.", "numbers of bars unbounded where the rows are abstract; dimensions symbolic",
  trusted=[AFFINITY, SHAPELY, SETOPS], bounded=["filled column grids up to 4 x 4 bars", "CLT up to six layers", "runtime monitors"],
  assumptions=["np.linspace endpoints and spacing exact", "Super-T outline: coded AS 5100.5 construction as specification"])
m("C31",
  "to_fibre_section: one cell per element with the element's area, centroid, warping value and gradient (any straight element, "
  "any quadratic field), printed precisely, in the documented commands, with the material mapping applied to whole names.",
  "cells for all elements and fields", trusted=[ELEM, "str.format prints at least the stated digits"],
  bounded=["the text: up to four elements, several names, mappings and widths", "runtime monitor export"])
m("C32",
  "Relational: scaling every modulus by k multiplies each composite result by the documented power of k and leaves stresses "
  "and plastic results; a section divided into regions of one material gives the undivided section's elements and results.",
  "two executions of the real code on one abstract section, k symbolic", trusted=[ELEM, SOLVER, RICH, "linear homogeneity of the solver: (kK, k^p f) has solution k^(p-1) u"],
  bounded=["division into one to three regions (elements and nodes unbounded)", "runtime monitors factor, regions, thin regions"])
m("C33",
  "offset_perimeter of Geometry (exterior, interior, all) against the set expression of offset rings, any number of holes by an "
  "inductive loop contract, every kind of buffer result, assigned control point inside/outside; buffer_polygon; CompoundGeometry "
  "erosion region by region; compound_dilation (own region kept, band added only outside all outlines); extract_shared_paths.",
  "regions as truth tables over named sets, so an omitted or doubled set operation is refuted for all shapes",
  trusted=[SHAPELY, SETOPS, "shapely buffer(distance, quad_segs) is the region offset by that distance", "shapely shared_paths and line_merge"],
  bounded=["compound_dilation: several pieces of one region (any number of regions otherwise)", "runtime monitors offsets, compound offsets, compound options"])
m("C34",
  "shift_points (any list of points: loop contract; relative, absolute, zero), control point kept iff inside; assign_control_point; "
  "calculate_area/centroid/extents/perimeter of Geometry and CompoundGeometry.",
  "coordinates, offsets and number of points symbolic", trusted=[SHAPELY, "C25 contract of Geometry.from_points"],
  assumptions=[ROUND], bounded=["runtime monitors points, control points, measures"])
m("C35",
  "print_results, print_transformed_results: every row's label, getter, index, format and division for sections with and without "
  "materials and every pattern of missing results; display_* pass their arguments; SectionProperties.asdict; display_mesh_info.",
  "each getter is a distinct token, so a value shown is traced to the getter it came from",
  trusted=["rich.Table.add_row / Console.print"], bounded=["runtime monitor displayed (parses what is printed)"])
m("C36",
  "plot_stress for every component name, plot_stress_vector, plot_mohrs_circles, plot_centroids, plot_mesh, "
  "plot_warping_function, plot_geometry: the arguments handed to matplotlib are the named arrays, masks, levels, points and titles; "
  "plotting_context: axes given or made, title, file, display; draw_principal_axis: both lines pass through the centroid at the "
  "angle and end within the window, for every angle and window.",
  "every array is a distinct token or symbolic; the stress tensor of the Mohr circles is symbolic",
  trusted=["matplotlib draws what it is given", "numpy.linalg.eig of a symmetric matrix"],
  bounded=["up to three material groups of generic elements", "runtime monitors plots, mohr, files, principal axes"])
