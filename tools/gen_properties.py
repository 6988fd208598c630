"""Writes /verif/properties.jsonl (the property list, kept as Python data for readability)."""
import json, os

FEA = "src/sectionproperties/analysis/fea.py"
SEC = "src/sectionproperties/analysis/section.py"
PLA = "src/sectionproperties/analysis/plastic_section.py"
SOL = "src/sectionproperties/analysis/solver.py"
POST = "src/sectionproperties/post/post.py"
STR = "src/sectionproperties/post/stress_post.py"
FIB = "src/sectionproperties/post/fibre.py"
GEO = "src/sectionproperties/pre/geometry.py"
BIS = "src/sectionproperties/pre/bisect_section.py"
PRE = "src/sectionproperties/pre/pre.py"
LIB = "src/sectionproperties/pre/library/"

P = []


def add(pid, title, statement, over, text, why, files, mech, observe=()):
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


add("C01", "Element area integrals are exact",
    "For every straight-sided, non-degenerate six-noded triangle, wherever it lies and whatever its size, shape and orientation, the element's area, first moments of area and second and product moments of area equal the exact integrals of 1, y, x, y^2, x^2 and xy over the triangle. The element also reports exactly its own material's elastic modulus, shear modulus and density, and asking again, or after any other element calculation, gives the same answer.",
    ["inputs", "histories"], "all corner coordinates of a counter-clockwise straight-sided triangle, all materials, all preceding calls",
    "The tests compare a handful of whole sections to published values at coarse tolerances; a quadrature, Jacobian or node-ordering change that vanishes for those shapes passes.",
    [FEA], [("geometric_properties", FEA), ("shape_function", FEA), ("gauss_points", FEA)], ["Tri6.geometric_properties"])

add("C02", "Quadratic interpolation, coordinate map and containment",
    "On every straight-sided, non-degenerate element, interpolation at any natural coordinate reproduces every quadratic field exactly, in value, in global position, in global gradient and with the area factor equal to the area of the triangle. Mapping a point's natural coordinates to the section and back is the identity, and a point is reported inside an element exactly when it lies in the closed triangle.",
    ["inputs", "histories"], "all elements, all quadratic fields, all natural coordinates and points, all preceding calls",
    "The tests evaluate shape functions at one or two points of one or two elements; partition of unity, completeness and the inverse map are for-all statements.",
    [FEA], [("shape functions and gradients", FEA), ("local_coord", FEA), ("point_within_element", FEA)], ["shape_function", "shape_function_only", "Tri6.local_coord", "Tri6.point_within_element"])

add("C03", "Torsion system: element and assembled",
    "Each element's torsion stiffness, load and constraint vectors are the modulus-weighted integrals of grad(Ni).grad(Nj), of grad(Ni).(y,-x) and of Ni over the element. The assembled system is, for every mesh and node numbering, the sum of the element contributions at their own nodes, bordered by the constraint row and column with a zero corner; it is symmetric and constant warping lies in the null space of its unbordered part.",
    ["inputs"], "all element geometries, moduli, meshes and node numberings",
    "Tests only compare torsion constants of fixed sections; a wrong entry that cancels for symmetric or coarse samples is not seen.",
    [FEA, SEC], [("_assemble_torsion", FEA), ("torsion_properties", FEA), ("assemble_torsion", SEC)], ["Tri6.torsion_properties", "Section.assemble_torsion"])

add("C04", "Element shear, warping and monosymmetry integrals",
    "For every element and every value of the section second moments, Poisson's ratio, nodal warping and nodal shear functions, the element shear load vectors, shear-centre and warping integrals, shear-deformation coefficients and monosymmetry integrals equal the integrals of Pilkey's integrands over the element, each weighted by the element's own elastic modulus. Integrands up to cubic degree are integrated exactly and quartic ones with the documented four-point rule.",
    ["inputs"], "all elements, materials, second moments, Poisson's ratios, nodal vectors and principal angles",
    "Tests pin totals for a few sections, most with zero Poisson's ratio or symmetric shapes in which whole terms vanish.",
    [FEA], [("_assemble_shear_load", FEA), ("shear_warping_integrals", FEA), ("_assemble_shear_coefficients", FEA), ("monosymmetry_integrals", FEA)],
    ["Tri6.shear_load_vectors", "Tri6.shear_warping_integrals", "Tri6.shear_coefficients", "Tri6.monosymmetry_integrals"])

add("C05", "Element stress recovery at the nodes",
    "For every element and every load, the nodal stresses an element reports for each action equal the analytical stress field of that action (axial, bending about either axis pair, torsion from the warping gradient, shear from the shear-function gradients) evaluated exactly at its six nodes, scaled by its own elastic modulus. Each action's component depends linearly on that action alone and is zero when the action is zero.",
    ["inputs"], "all elements, materials, actions of either sign, section properties and nodal functions",
    "Tests check peak stresses of a few load cases on a few sections; sign, coupling (Ixy) and extrapolation errors vanish for symmetric sections or single actions.",
    [FEA], [("element_stress", FEA), ("extrapolate_to_nodes", FEA), ("gauss_points(6)", FEA)], ["Tri6.element_stress"])

add("C06", "Stress at a point",
    "For any point inside the section, the stresses returned are the quadratic interpolation, at that point, of the stresses of the mesh element containing it under the combined action of all eight loads, with the requested aggregate applied over the elements of a shared point; the list form returns one result per point in the order given. A point outside the section gives no result, and pure axial and bending stresses equal the analytical linear field everywhere.",
    ["inputs"], "all points (interior, on shared edges and nodes, outside), loads, sections and aggregation functions",
    "Tests probe a few points of a few sections; interpolation, load routing and element search are for-all-points statements.",
    [SEC, FEA], [("get_stress_at_points", SEC), ("local_element_stress", FEA), ("mesh_search_tree", SEC)], ["Section.get_stress_at_points", "Section.get_stress_at_point"])

add("C07", "Section totals are material-weighted sums over the mesh",
    "For any mesh and material assignment, area, mass, axial rigidity, shear rigidity, modulus-weighted first and second moments equal the sums over all elements of the element integrals weighted by each element's own density or modulus, and the effective modulus, shear modulus and Poisson's ratio are the corresponding ratios. The perimeter is the exterior length of the geometry, and re-running the analysis, on the same object or on a fresh one, gives the same results rather than accumulating.",
    ["inputs", "histories"], "all meshes, element orders, material assignments and repetitions of analyses",
    "Tests use single runs of a few sections; accumulation on re-run, weights and element subsets are over all histories and meshes.",
    [SEC, POST], [("calculate_geometric_properties", SEC)], ["Section.get_area", "get_mass", "get_ea", "get_eq", "get_eig", "get_e_eff", "get_g_eff", "get_nu_eff", "get_perimeter"])

add("C08", "Centroid, parallel-axis and radii of gyration",
    "For every section the elastic centroid is the ratio of modulus-weighted first moments to axial rigidity, the centroidal second moments are the global ones less the parallel-axis terms, and the radii of gyration squared equal second moment over area for the x, y and both principal axes. Moving a section rigidly changes its global moments but no centroidal property.",
    ["inputs"], "all values of the section totals; all translations of all sections",
    "Tests use sections placed at a few positions; the identity must hold for every position and material mix.",
    [POST, SEC], [("calculate_elastic_centroid", POST), ("calculate_centroidal_properties", POST)], ["Section.get_c", "get_ic", "get_eic", "get_rc", "get_rp"])

add("C09", "Principal axes",
    "The principal second moments are the eigenvalues of the centroidal inertia tensor, the larger first, and the principal angle is a direction in which the tensor becomes diagonal with the larger value about the 1-axis. Principal and global coordinates are mutually inverse rotations by that angle, and rotating a section by any angle leaves the principal second moments unchanged and turns the principal axis by that angle (modulo 180 degrees).",
    ["inputs"], "all inertia tensors, including zero and negative product moments and nearly equal moments; all angles",
    "Tests cover a few angles of a few shapes; quadrant and tie cases are over all inputs.",
    [POST, FEA, SEC], [("calculate_centroidal_properties", POST), ("principal_coordinate / global_coordinate", FEA)], ["Section.get_ip", "get_eip", "get_phi"])

add("C10", "Elastic section moduli use the true extreme fibres",
    "Each elastic section modulus equals the corresponding centroidal or principal second moment divided by the distance from the elastic centroid to the furthest mesh node on that side of that axis, for the positive and negative sides of the x, y, 11 and 22 axes.",
    ["inputs"], "all node sets, centroids and principal angles",
    "Tests use sections whose extremes are symmetric or at axis-aligned corners; sides and principal directions can be swapped unnoticed.",
    [POST], [("calculate_centroidal_properties", POST), ("calculate_extreme fibres", POST)], ["Section.get_z", "get_ez", "get_zp", "get_ezp"])

add("C11", "Yield moments are first-yield moments",
    "Each yield moment is the smallest moment about that axis (x, y, 11 or 22) at which the elastic bending stress at some node of some element reaches that element's own material yield strength. Every element of every material takes part, so the stress ratio at the yield moment is at most one everywhere and equals one somewhere.",
    ["inputs"], "all sections, meshes and material mixes, including equal but separately constructed materials",
    "Tests check yield moments of one or two sections; the governing material or fibre changes with every input.",
    [SEC], [("calculate_geometric_properties", SEC), ("MaterialGroup", SEC)], ["Section.get_my", "get_my_p"])

add("C12", "Torsion constant, shear centre and warping constant",
    "For every section the torsion constant, both elasticity and Trefftz shear centres (in global and principal axes) and the warping constant are exactly the documented functionals of the finite element warping and shear functions of the section about its own elastic centroid, with composite sections weighted by modulus. They do not depend on where the section is placed, on the order of its elements, or on which solver is used.",
    ["inputs", "configurations"], "all sections, positions, materials, solver types",
    "Tests compare a few published constants; sign, Ixy-coupling and Poisson terms vanish for the symmetric ones.",
    [SEC, FEA], [("calculate_warping_properties", SEC)], ["Section.get_j", "get_ej", "get_sc", "get_sc_p", "get_sc_t", "get_gamma", "get_e_gamma"])

add("C13", "Shear areas and monosymmetry constants",
    "For every section the shear areas for loading in x and y are the squared shear factor divided by the assembled shear-deformation coefficients, those in the principal directions follow from rotating the shear-coefficient tensor by the principal angle, and the monosymmetry constants are the assembled cubic moments over the matching second moment less or plus twice the matching shear-centre coordinate. Each plus constant is the negative of its minus constant.",
    ["inputs"], "all sections, materials, Poisson's ratios and principal angles",
    "Tests check few values, mostly on symmetric sections for which principal and global values coincide or vanish.",
    [SEC, FEA], [("calculate_warping_properties", SEC)], ["Section.get_as", "get_as_p", "get_eas", "get_eas_p", "get_beta", "get_beta_p"])

add("C14", "Frame analysis agrees with the full analyses",
    "For every section, solver choice and history, the frame analysis returns the same area, centroidal second moments, torsion constant and principal angle as the geometric followed by the warping analysis. It does so whether or not other analyses were run before it.",
    ["inputs", "configurations", "histories"], "all sections and materials, direct and iterative solvers, any preceding analyses",
    "Two separate implementations are kept in step only for the few sections the tests run through both.",
    [SEC], [("calculate_frame_properties", SEC)], ["Section.calculate_frame_properties"])

add("C15", "Stress results superpose and combine correctly",
    "For every section and loading, each named stress result is linear in the actions, the total normal and shear stresses are the sums of the named components, and the resultant shear, principal and von Mises stresses are the standard functions of the total normal and shear stresses. Integrating the normal stress over the section returns the applied axial force and bending moments, and shear stress the applied torsion and shear forces.",
    ["inputs"], "all combinations and signs of the eight actions on all sections",
    "Tests check maxima for single actions; combinations form an unbounded space and sign errors hide in symmetric maxima.",
    [SEC, STR], [("calculate_stress", SEC), ("StressResult.calculate_combined_stresses", STR)], ["Section.calculate_stress", "StressPost.get_stress"])

add("C16", "Stresses are partitioned by material and averaged at nodes",
    "Every element contributes to exactly one material's result, elements of equal materials to the same one, and at each node of a material the reported stress is the weighted average of the stresses of that material's elements meeting there, and zero at nodes the material does not touch. Each result is reported under its own name next to the material it belongs to.",
    ["inputs"], "all meshes, material assignments (equal, identical and distinct) and loads",
    "Tests use one or two materials; grouping and averaging are over all material assignments and meshes.",
    [SEC, STR], [("Section.__init__", SEC), ("calculate_stress", SEC), ("get_stress", STR)], ["StressPost.get_stress", "Section.material_groups"])

add("C17", "Result accessors: composite gating and reference modulus",
    "A geometric-only section gives its geometric results through the plain accessors, and a composite one gives modulus-weighted results, divided by the requested reference modulus (a number or a material's modulus), each accessor returning its own quantity in its own order. Accessors that are meaningless for the kind of section raise an error instead of returning a number.",
    ["inputs", "configurations"], "all accessors, both kinds of section, all reference moduli and stored values",
    "Tests call some accessors on some sections; mixed-up, unscaled or wrongly gated components need every accessor on both kinds.",
    [SEC], [("get_* accessors", SEC), ("is_composite / get_e_ref", SEC)], ["Section.get_*"])

add("C18", "Prerequisites and no stale results",
    "Asking for a result whose analysis has not been run raises an error, never a number, and running an analysis before its prerequisite raises an error. Analyses never modify the geometry or mesh they were given, and results after any sequence of analyses equal those of a fresh section.",
    ["histories"], "all sequences of analyses, accessors and stress calls on all sections",
    "Tests check a few missing-prerequisite errors in one order; the property ranges over all call orders.",
    [SEC], [("RuntimeError guards", SEC)], ["Section.calculate_*", "Section.get_*"])

add("C19", "Solved fields satisfy the constrained system",
    "The direct and iterative solvers return a field that satisfies the given linear system to solver accuracy, with the multiplier removed, and raise an error when the constraint multiplier shows (with either sign) that the system was not satisfied or when the iterative solver fails to converge. Both solvers give the same warping results.",
    ["inputs", "configurations"], "all well-posed systems and right-hand sides; both solvers",
    "Tests compare two solvers on one section and never produce a failing solve.",
    [SOL], [("solve_direct_lagrange / solve_cgs_lagrange", SOL)], ["solver.solve_*"])

add("C20", "Plastic analysis",
    "For every section of given yield strengths, the plastic centroids about the global and principal axes are points at which a line parallel to the axis splits the section into two parts of equal squash load, and the plastic moments are the first moment of squash load about that line on each side, summed. Plastic moduli are those values for unit strength and shape factors are plastic over elastic modulus, in every direction including the principal one.",
    ["inputs"], "all section shapes, placements, orientations and yield strengths",
    "Tests cover a few sections, mostly symmetric, where plastic and elastic centroids coincide.",
    [PLA], [("pc_algorithm / evaluate_force_eq", PLA), ("calculate_plastic_properties", PLA)], ["Section.get_pc", "get_s", "get_mp", "get_sf", "get_sp", "get_mp_p", "get_sf_p", "get_pc_p"])

add("C21", "Splitting a section partitions it",
    "Splitting any geometry, with or without holes, about any line gives two groups of regions whose areas sum to the original, whose interiors do not overlap and whose materials are kept, the first group lying above the line (to the right of a vertical one) and the second on the other side, wherever the line passes. A line that misses the section puts all of it in one group.",
    ["inputs"], "all geometries, materials, points and line directions including near-vertical ones",
    "Tests split a few shapes with a few lines; slopes, holes and misses are unbounded.",
    [BIS, GEO], [("create_line_segment / group_top_and_bottom_polys", BIS), ("split_section", GEO)], ["Geometry.split_section", "CompoundGeometry.split_section"])

add("C22", "Rigid transforms are isometries that keep all parts",
    "Shifting, rotating and mirroring any simple or compound geometry moves every point of every region by the stated rigid motion about the stated point, with a compound geometry moving as one body, keeps each region's material, holes and tolerance, and leaves the original unchanged. Shifting by a vector and back, rotating by an angle and back, and mirroring twice restore the geometry.",
    ["inputs", "histories"], "all geometries (holes, several materials), offsets, angles, reference points and sequences of operations",
    "Tests transform a few shapes; composites about special points (origin, centre, names) are unbounded.",
    [GEO], [("shift_section / rotate_section / mirror_section", GEO)], ["Geometry.*_section", "CompoundGeometry.*_section"])

add("C23", "Alignment puts the named edges where asked",
    "Aligning a geometry to another geometry or a point on a side places exactly the requested extreme of the moved geometry (the facing edge, or the same edge when aligning inside) on the target coordinate and does not move it in the other direction. Centring places the geometry's centroid (weighted by the elastic modulus for a compound geometry) on the target's centroid, the given point or the origin.",
    ["inputs"], "all geometries, targets, sides and options",
    "Tests align a few pairs; side/inner/point combinations form a grid only partly sampled.",
    [GEO], [("align_to / align_center", GEO)], ["Geometry.align_to", "Geometry.align_center"])

add("C24", "Boolean operations and materials",
    "Subtraction, union, intersection and symmetric difference of geometries give regions covering exactly the corresponding point set with area conserved (inclusion-exclusion), keep the material of a simple left operand in each resulting region (under subtraction each region of a compound left operand keeps its own), and adding keeps every region with its own material. The operands are unchanged and the results mesh with no uncovered or doubly covered area.",
    ["inputs"], "all pairs of simple and compound geometries, including touching, nested, disjoint and equal ones",
    "Tests combine a few rectangles; set identities are over all pairs.",
    [GEO], [("__add__, __sub__, __or__, __and__, __xor__", GEO)], ["Geometry operators", "CompoundGeometry operators"])

add("C25", "Points, facets, holes and control points describe the region",
    "For every geometry the points and facets describe exactly the boundary of the region, each hole point lies inside its hole and each control point inside its own region. Building a geometry from such points, facets, holes and control points, with the perimeters listed one after the other and control points and materials in the order of the regions, gives the same regions, control points and materials back (when every interior perimeter bounds a hole).",
    ["inputs"], "all polygons with holes and all compound geometries, with regions, holes and points listed in any order",
    "Tests build a few shapes from points; round trips over all shapes and orders are not sampled.",
    [GEO], [("create_facets_and_control_points", GEO), ("from_points", GEO)], ["Geometry.from_points", "CompoundGeometry.from_points", "geometry.points/facets/holes/control_points"])

add("C26", "The mesh covers each region with its material",
    "Meshing any valid geometry yields six-noded straight-sided elements with positive area which together cover the region exactly once (holes left open), and each element carries the attribute, and in the section the material, of the region that contains it. Mesh-size limits are honoured per region.",
    ["inputs", "configurations"], "all geometries, mesh sizes and material orders",
    "Tests count nodes or check totals for fixed meshes.",
    [PRE, GEO, SEC], [("create_mesh", PRE), ("Section.__init__", SEC)], ["Geometry.create_mesh", "Section.elements"])

add("C27", "Overlapping and disjoint regions are detected",
    "The overlap check reports a set of regions if and only if they share area beyond rounding (a billionth of their total), and the disjoint check reports them if and only if they do not form one connected set (touching in a point connects). The answer does not depend on the order in which the regions are given, and a warping analysis of disjoint regions and a plastic analysis of overlapping regions, and only these, warn the user.",
    ["inputs"], "all lists of polygons in all orders, including single ones, nested ones, edge-touching and corner-touching chains",
    "Tests use two or three regions in one order; connectivity over all orders is combinatorial.",
    [GEO, SEC], [("check_geometry_overlaps / check_geometry_disjoint", GEO)], ["check_geometry_overlaps", "check_geometry_disjoint", "warnings of analyses"])

add("C28", "Steel and primitive library sections have the stated dimensions",
    "For every valid set of dimensions, each primitive and steel section generator produces one valid region whose overall width and depth are the stated ones, whose area is the one given by its plates and fillets, whose thicknesses are the stated ones where they are measured, positioned and symmetric as documented, and carrying the material given. Increasing the number of fillet or circle points only refines arcs towards the true radius.",
    ["inputs"], "all admissible dimensions (including zero radii, t equal limits) and discretisations of each generator",
    "Tests use a single parameter set per shape.",
    [LIB + "steel_sections.py", LIB + "primitive_sections.py", LIB + "utils.py"], [("section generators", LIB + "steel_sections.py"), ("draw_radius", LIB + "utils.py")], ["library functions"])

add("C29", "Nastran library sections follow the DIM definitions",
    "For every admissible set of Nastran dimensions, each generator produces the bar section those dimensions define: the plates, openings, overall extents and symmetry stated by the documented dimensions, carrying the material given. Its recovery points are the documented points of the outline (relative to the section itself). Dimensions that the section cannot have are refused with a ValueError.",
    ["inputs"], "all admissible and inadmissible DIM values of each of the Nastran section types, and all numbers of circle points",
    "Tests use at most one parameter set per type.",
    [LIB + "nastran_sections.py"], [("nastran_* generators", LIB + "nastran_sections.py")], ["library functions"])

add("C30", "Concrete, bridge and timber generators place material correctly",
    "For every admissible input, each concrete generator gives a gross outline of the stated dimensions, each reinforcing bar has the stated area and number of sides and lies at the stated cover, exactly the requested bars are present (in walls and cores, as many evenly spaced ones as the maximum spacing asks for), and concrete is displaced by bars so that no area is counted twice. Layered timber sections stack their layers from top to bottom without gaps or overlaps, each with its own thickness and material. Bridge girders have the outline of the type asked for, symmetric about the vertical axis. Types, bar counts and openings that are not possible are refused.",
    ["inputs"], "all admissible dimensions, bar counts, covers, spacings, layer thicknesses and materials",
    "Tests use one parameter set per generator, timber only with equal layers.",
    [LIB + "concrete_sections.py", LIB + "bridge_sections.py", LIB + "timber_sections.py"], [("concrete_* / add_bar / clt", LIB)], ["library functions"])

add("C31", "Fibre export preserves the section",
    "The exported fibre model contains one fibre per mesh element whose area, centroid, warping value and derivatives and material are those of the element, with coordinates and warping about the origin of the section's coordinates and the analysis type asked for, so the fibres' total area and first moments equal the section's. Materials are renamed exactly as the mapping asks, other entries are never changed, and the saved file is the returned text. Unknown analysis types are refused.",
    ["inputs", "configurations"], "all sections, analysis types, material names and mappings",
    "One test compares one section.",
    [FIB], [("to_fibre_section", FIB)], ["to_fibre_section"])

add("C32", "Composite results scale and reduce to the homogeneous ones",
    "Multiplying every material's modulus by a common factor multiplies modulus-weighted results by that factor and leaves centroids, angles, warping functions, shear centres, radii and stresses unchanged. Giving every region of a section one common material gives the results of the undivided section of that material, however the section is divided into regions.",
    ["inputs"], "all sections, factors, region subdivisions and loads",
    "Metamorphic relation over all sections; tests check one or two pairs.",
    [SEC, FEA, POST], [("modulus weighting", SEC)], ["Section.get_e*", "calculate_stress"])

add("C33", "Offsetting the perimeter",
    "Offsetting the perimeter of a simple geometry gives exactly the region bounded by its outline offset by the amount with the holes as they are ('exterior'), by its outline as it is with its hole outlines offset ('interior', a negative amount making holes smaller), or both ('all'); arcs have the stated resolution. The result has as many pieces as remain, each with the geometry's material; a control point that was assigned is kept while it lies inside. Offsetting holes that do not exist, or another value of 'where', is refused. Eroding a compound geometry leaves of each region exactly the part that lies within the offset outline of the whole, with its material. Dilating a compound geometry keeps every region's own area, material and holes and adds the band of that width along the parts of its outline that no other region shares, only outside the outlines of all regions. The geometry itself never changes.",
    ["inputs"], "all regions with any number of holes, all amounts of both signs, resolutions and assigned control points, all compounds",
    "Tests offset one or two sections and compare total areas.",
    [GEO], [("Geometry.offset_perimeter / CompoundGeometry.offset_perimeter / compound_dilation", GEO)], ["offset_perimeter"])

add("C34", "Moving points, assigning control points, and measures",
    "Moving points of a geometry moves exactly the points listed, by the offsets or to the absolute coordinates given (zero included), and leaves all other points, the material and the tolerance as they are; an assigned control point is kept exactly while it lies inside the new region. Assigning a control point changes only where the region is identified: outline, holes, material and tolerance stay, and the point appears as the control point of the mesh input. A geometry's area, centroid, extents and perimeter are those of its region: a compound's area is the sum of its regions', its perimeter the outline of their union, or -1 when the regions are disjoint. None of these calls changes the geometry they are made on.",
    ["inputs"], "all geometries, sets of points, offsets, absolute positions including zero, and control points",
    "Tests move one point of one section.",
    [GEO], [("Geometry.shift_points / assign_control_point / calculate_*", GEO)], ["shift_points", "assign_control_point", "calculate_perimeter"])

add("C35", "Displayed results are the computed results",
    "Displaying the results of a section lists exactly the results computed so far, each labelled row showing the value of the quantity that the label names in the format asked for: modulus-weighted quantities for a section with material properties, purely geometric ones otherwise. Displaying transformed results shows the modulus-weighted quantities divided by the reference modulus given, and is refused for a section without material properties. The dictionary form holds every stored result under its own name. Mesh information states the numbers of nodes, elements and regions of the mesh.",
    ["inputs", "histories"], "all sections, with and without material properties, all combinations of completed analyses, all formats and reference moduli",
    "The tests call the display functions for coverage without comparing what they print.",
    [POST, SEC], [("print_results / print_transformed_results", POST), ("display_results / display_transformed_results / display_mesh_info", SEC)], ["display_results", "display_transformed_results"])

add("C36", "Plots show the quantity, the points and the mesh they name",
    "A stress plot draws, for each material region asked for, the nodal values of exactly the stress component named, over that region's elements only, with contour levels that cover the drawn range or the limits given, under the component's title; vector plots draw the two components of the named vector with their magnitude. The plotted Mohr's circles have as centres and radii those of the stress state's principal stresses at the point asked for. A centroid plot marks the elastic centroid, shear centre, plastic centroids and principal axes where the results place them, leaving out what is not computed. Mesh, geometry and warping function plots show the mesh's elements, the geometry's facets, points, holes and control points, and the section's own warping values.",
    ["inputs"], "all sections, stress states, stress components, material filters, limits, evaluation points and results computed",
    "The tests compare a few images or only check that a plot is created.",
    [STR, POST, SEC, GEO], [("StressPost.plot_*", STR), ("plot_centroids / plot_mesh / plot_warping_function", SEC), ("plot_geometry", GEO), ("draw_principal_axis", POST)], ["plot_stress", "plot_mohrs_circles", "plot_centroids"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
