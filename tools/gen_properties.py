#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so statements are easy to edit)."""
import json, pathlib
P = []
G="src/sectionproperties/pre/geometry.py"; S="src/sectionproperties/analysis/section.py"; F="src/sectionproperties/analysis/fea.py"
PL="src/sectionproperties/analysis/plastic_section.py"; PO="src/sectionproperties/post/post.py"; SP="src/sectionproperties/post/stress_post.py"
PR="src/sectionproperties/pre/pre.py"; BI="src/sectionproperties/pre/bisect_section.py"; SO="src/sectionproperties/analysis/solver.py"; FI="src/sectionproperties/post/fibre.py"
L="src/sectionproperties/pre/library/"
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Area properties equal the exact integrals of the section, whatever the mesh",
 "For every valid section (any polygonal regions, holes, materials and position in the plane) the geometric analysis returns the exact area, perimeter, mass, axial rigidity, effective moduli, first and second moments, centroid, radii of gyration, principal moments and axis angle, and elastic section moduli of the regions, each region weighted by its elastic modulus (or density, or shear modulus) as documented. The values depend on the regions and materials only, not on how finely or coarsely they were meshed or in which order the regions are listed.",
 ["inputs","configurations"],"all polygonal sections x material assignments x mesh sizes x positions",
 "The tests check a few dozen named shapes against textbook numbers; a wrong sign, weight, extreme fibre or quadrature point on asymmetric, multi-material, holed or far-from-origin shapes is not sampled.",
 [S,F,PO],[("calculate_geometric_properties",S),("Tri6.geometric_properties / gauss_points / shape_function",F),("SectionProperties.calculate_centroidal_properties",PO)],["Section getters after a geometric analysis"])
p("C02","The mesh tiles exactly the requested regions",
 "Meshing any valid geometry yields a conforming mesh of non-degenerate triangles whose union is exactly the geometry's regions: no element lies outside a region or in a hole, none overlap, every element carries the material of the region it lies in, and mid-side nodes lie at the middle of their edges. Each region respects the maximum element area requested for it (a single requested size applies to every region), a size of zero or a coarse mesh impose no size limit, and the minimum angle requested is respected except where the input's own corners prevent it.",
 ["inputs","configurations"],"all geometries x per-region mesh sizes x angle limits x coarse flag",
 "Tests look at element counts or derived properties of some meshes; region-to-material association, per-region sizes and conformity are never checked across configurations.",
 [G,PR,S],[("Geometry.create_mesh / CompoundGeometry.create_mesh",G),("create_mesh",PR),("Section.__init__",S)],["Section.mesh_nodes, Section.mesh_elements, Section.elements[i].material"])
p("C03","Results follow the section under rigid motion, mirroring, scaling, unit change",
 "Moving, rotating, mirroring or uniformly scaling a section, or scaling all moduli and strengths, changes every reported geometric, warping, plastic and stress result exactly as the corresponding tensor transformation prescribes: lengths, areas, moments, warping constants scale with their powers of length, axes and centres move with the section, and invariant quantities do not change.",
 ["inputs","configurations"],"all sections x all plane symmetries (8 lattice symmetries, Pythagorean rotations), translations, scale factors, modulus factors",
 "Tests only ever evaluate a section in one position and unit system; tolerance constants, axis mix-ups and origin-dependent code only show under transformation.",
 [S,F,PL,PO],[("calculate_* analyses",S),("Tri6 methods",F),("PlasticSection",PL)],["Section getters, StressPost.get_stress"])
p("C04","Torsion, warping and shear results solve the documented boundary-value problem",
 "For every connected section and mesh the warping analysis returns the torsion constant, warping constant, elastic and Trefftz shear centres, shear areas (centroidal and principal axes) and monosymmetry constants that the documented finite element formulation gives on that mesh, modulus-weighted with the effective Poisson's ratio for composite sections and zero Poisson's ratio otherwise. The direct and the iterative solver agree, refining the mesh does not increase the torsion constant beyond the coarse value, and shear centres lie on axes of symmetry.",
 ["inputs","configurations"],"all connected sections x meshes x materials x solver types",
 "Tests compare a handful of shapes with published values at a few percent; sign or coupling errors that vanish for symmetric or homogeneous shapes pass.",
 [S,F,SO],[("calculate_warping_properties",S),("Tri6.torsion_properties, shear_load_vectors, shear_warping_integrals, shear_coefficients, monosymmetry_integrals",F),("solve_direct_lagrange / solve_cgs_lagrange",SO)],["get_j, get_gamma, get_sc, get_sc_p, get_sc_t, get_as, get_as_p, get_beta, get_beta_p and composite versions"])
p("C05","Frame analysis agrees with the full analyses",
 "For every section, composite or not, and either solver, the frame analysis returns the same area, centroidal second moments of area, torsion constant and principal axis angle as a geometric analysis followed by a warping analysis, without needing any earlier analysis and regardless of which analyses were run before. Progress display never changes any result.",
 ["inputs","histories","configurations"],"all sections x materials x solver types x prior analysis histories x progress display on/off",
 "The frame analysis duplicates the code of the other two analyses; tests compare a couple of sections only.",
 [S],[("calculate_frame_properties",S)],["return value of calculate_frame_properties and getters"])
p("C06","Plastic properties equal the exact fully plastic solution",
 "For every section the plastic analysis returns the plastic centroids, plastic section moduli (or plastic moments, weighting each region by its yield strength) and shape factors about the centroidal and the principal axes, equal to those of the exact equal-force split of the section for that axis. The result does not depend on the mesh, on the listing order of the regions or on where the section sits in the plane.",
 ["inputs","configurations"],"all sections (concave, holed, disjoint, multi-material) x positions x principal angles",
 "Tests cover rectangles, I-sections and one composite; iteration brackets, force signs of reversed regions, disjoint or concave splits need many shapes.",
 [PL,BI,S],[("PlasticSection.calculate_plastic_properties / solve_plastic_centroid / calculate_plastic_force",PL),("create_line_segment / group_top_and_bottom_polys / line_intersection",BI)],["get_pc, get_pc_p, get_s, get_sp, get_mp, get_mp_p, get_sf, get_sf_p"])
p("C07","Yield moments are the smallest moments that bring any fibre to yield",
 "For every composite section the yield moments about the centroidal and principal axes are the lowest moments at which the linear-elastic bending stress somewhere in the section reaches that material's yield strength: applying the yield moment in a stress analysis gives a largest stress-to-strength ratio of exactly one. Every region counts, whatever its order, whether or not materials are shared, and the result is not changed by the mesh.",
 ["inputs","configurations"],"all multi-material sections x strength/stiffness assignments x region orders",
 "Tests check a few symmetric examples; which fibre governs depends on strengths, stiffnesses, product of inertia and region order.",
 [S],[("calculate_geometric_properties (yield index)",S)],["get_my, get_my_p, StressPost.get_stress"])
p("C08","Stresses are linear, equilibrated, and combined as documented",
 "For every section and combination of actions the stress analysis returns, per material, nodal stresses equal to the documented elastic formulas: each action contributes independently and linearly, normal stresses integrate to the applied force and moments, shear stresses come from the warping and shear functions, and total, resultant shear, principal and von Mises stresses are the stated combinations of the components. An action that is not applied contributes zero.",
 ["inputs","configurations"],"all sections x materials x action vectors (all 2^8 on/off patterns, signs, magnitudes)",
 "Tests check single actions on a few shapes; mixed actions, product of inertia terms, composite weighting and combination fields are not covered exhaustively.",
 [S,F,SP],[("calculate_stress",S),("Tri6.element_stress",F),("StressResult.calculate_combined_stresses / StressPost.get_stress",SP)],["StressPost.get_stress"])
p("C09","Point stresses agree with the stress field and respect the section boundary",
 "Stresses requested at points equal the section's stress field there, in the order the points were given and independent of which other points are requested; a point outside the section or in a hole gets no stress, a point on an element edge or a node gets the aggregate (average by default) of the adjoining elements. For normal stress this is exactly the elastic formula with the local material's modulus.",
 ["inputs"],"all sections x point sets (inside, outside, on edges, nodes, holes, interfaces) x actions x orders",
 "Tests query a few points of one or two sections.",
 [S,F],[("get_stress_at_points",S),("Tri6.local_element_stress / local_coord",F)],["return value of get_stress_at_points"])
p("C10","Results do not depend on the history of analyses or on other sections",
 "Any sequence of analyses, repeated analyses, stress calculations, displays, plots and look-ups on a section leaves every result equal to that of the same analysis on a freshly created section, and working on one section never changes another one, even when they share geometry, material objects or mesh coordinates, or when the geometry is re-meshed or transformed afterwards. Re-running an analysis does not change its results.",
 ["histories"],"all interleavings of operations up to a depth on one or two sections sharing geometry and materials",
 "Tests run each section through one fixed sequence; shared caches, in-place mutation and stale state need operation sequences.",
 [S,F,SP,PO],[("Section analyses",S),("cached gauss points / shape functions",F),("StressPost.__init__ copies",SP)],["all getters, get_stress"],[("section_props","last results",S),("functools caches","per-process caches of quadrature data",F),("material_groups","stress accumulators",S)])
p("C11","Results are available exactly when computed, for the right kind of section",
 "Before the required analysis every result request and dependent analysis fails with an error and leaves existing results unchanged; after it, results are available through exactly one of the geometric-only or composite forms, depending on whether any material was assigned. A transformed composite result equals the modulus-weighted one divided by the reference modulus (given as a number or a material), and dimensionless, length or strength results are not divided.",
 ["histories","configurations"],"all analysis subsets and orders x all getters x composite or not x reference moduli",
 "Tests check the gating of some getters after a fixed analysis order.",
 [S,PO],[("get_* methods, is_composite, get_e_ref",S)],["Section getters"])
p("C12","Splitting a region or duplicating a material does not change the results",
 "Describing the same physical section differently - as one region or as several touching regions of the same material, with the same material object or equal copies, with regions listed in another order, or with a single material on everything instead of none - gives the same results, up to the material's modulus, density and strength factors.",
 ["inputs","configurations"],"all partitions of small sections into regions x material object identities x orders",
 "Tests never compare alternative descriptions of one section.",
 [S,G],[("Section.__init__ material groups",S),("CompoundGeometry",G)],["Section getters, StressPost.get_stress"])
p("C13","Shift, rotate, mirror and point edits transform exactly the intended geometry",
 "Shifting, rotating (about a point or the centre, in degrees or radians) and mirroring a geometry or compound geometry maps every region, hole and assigned control point by exactly the corresponding plane transformation about the one intended point, keeps materials and tolerance, and moving points by an offset or to an absolute coordinate moves exactly those points. The original geometry is never modified and any sequence of operations equals the composed transformation.",
 ["histories","inputs"],"all operation sequences up to a depth over geometries with holes, materials and assigned control points",
 "Tests apply single operations to one or two shapes; composition, compound centres, zero coordinates and original-object aliasing are not covered.",
 [G],[("shift_section, rotate_section, mirror_section, shift_points (Geometry and CompoundGeometry)",G)],["geometry.geom, points, control_points, material"])
p("C14","Boolean operators obey set algebra",
 "Union, intersection, difference, symmetric difference and addition of geometries produce regions covering exactly the corresponding point sets, keep the left operand's material for what is taken from it (differences and intersections of a compound keep each region's own material, addition keeps each operand's), leave the operands unmodified and never put empty regions in a compound result. Algebraic identities such as (A - B) + (A & B) covering A hold for all operands, single or compound.",
 ["inputs","histories"],"all pairs/triples of lattice cell sets (adjacent, nested, disjoint, overlapping, equal) with materials",
 "Tests use a few overlapping shapes.",
 [G],[("__or__, __xor__, __sub__, __add__, __and__ of Geometry and CompoundGeometry",G)],["geometry.geom of the result, materials, Section areas"])
p("C15","Compound geometries compile to a consistent planar description",
 "Combining any regions yields unique points, facets that reference existing points and trace exactly the region boundaries, one control point inside each region, and a hole marker in exactly each enclosed void, with extents, area, centroid and perimeter (or a marker value when regions are disjoint) of the combined shape. Regions that touch share points so that the mesh is connected across them, and overlapping or disjoint regions are detected as such.",
 ["inputs"],"all arrangements of cells and nested regions up to a size, region orders, scales",
 "Tests count points/facets of a few compounds.",
 [G],[("CompoundGeometry.__init__/compile_geometry, calculate_extents/area/perimeter/centroid",G),("create_points_and_facets, check_geometry_overlaps, check_geometry_disjoint",G)],["points, facets, holes, control_points"])
p("C16","Geometries survive a round trip through points, facets, holes and control points",
 "Building a geometry from points, facets, control points and holes, with the facets listed loop after loop as documented, yields exactly the described regions: a loop around a hole marker and no control point is a hole, every other loop a region with the given material and control point, in order. Neither the numbering of the points nor the starting point and direction of a loop matter. Feeding the points, facets, holes and control points of any geometry, or of any compound geometry whose regions do not surround one another, back reproduces the same regions, holes and materials, and mismatched numbers of control points, materials and regions are rejected.",
 ["inputs"],"all small geometries x permutations/reversals of facet lists x materials",
 "Tests rebuild a few hand-written point lists.",
 [G],[("Geometry.from_points, CompoundGeometry.from_points, build_geometry_network",G)],["geometry.geom, material, control_points"])
p("C17","Splitting a section partitions it along the line",
 "Splitting a geometry or compound geometry by any line (given by a point and a direction vector, by two points, or crossing corners, edges or holes) returns pieces that together cover exactly the original regions without overlap, all right/top pieces on one side and all left/bottom pieces on the other, each keeping its region's material. A line that misses the section leaves it whole on the correct side.",
 ["inputs"],"all lattice lines x all small geometries incl. holes, concave, multi-material",
 "Tests split one or two shapes by axis-aligned lines.",
 [G,BI],[("split_section",G),("create_line_segment, line_intersection, group_top_and_bottom_polys",BI)],["returned geometries"])
p("C18","Perimeter offset grows or shrinks exactly the requested boundaries",
 "Offsetting a geometry's exterior, interior or all boundaries by an amount moves exactly those boundaries by that distance (a positive amount grows the section for the exterior or all boundaries and enlarges the holes for the interior ones, a negative amount the reverse), rounds corners with the requested number of segments, leaves the other boundaries alone, keeps the material, and returns every remaining piece. For a compound geometry the boundaries are those of the combined shape: an eroding offset trims all regions by the same cover measured from them, and a growing one (of regions that do not meet in a corner of a moved boundary) lets every region grow by the amount along its own moved edges only, without overlaps; each region keeps its material. The original is not modified.",
 ["inputs"],"all small geometries x offset amounts x which boundaries",
 "Tests check several numeric examples of single shapes.",
 [G],[("Geometry.offset_perimeter, CompoundGeometry.offset_perimeter, compound_dilation",G)],["returned geometry areas and polygons"])
p("C19","Align operations place geometries exactly against their target",
 "Aligning a geometry to another (or to a point) on a side translates it so that the named edges coincide (outer or, on request, inner), changing nothing in the other direction; centring moves the elastic (modulus-weighted for compounds) centroid to the target's centroid or point, or to the origin by default, within the geometry's rounding tolerance. Shape, holes, materials, control points and the target are unchanged, and invalid targets are rejected.",
 ["inputs","histories"],"all pairs of small geometries/compounds x sides x inner/outer x materials",
 "Tests cover a few rectangle alignments.",
 [G],[("align_to, align_center (Geometry and CompoundGeometry)",G)],["extents and centroids of the result"])
p("C20","Primitive and steel library sections have the documented dimensions",
 "Every primitive and steel library section with any valid dimensions is a valid single region whose outline has exactly the documented overall depth, width, thicknesses, radii, slopes and position, and hence the closed-form area (converging with the number of arc segments), symmetry and holes. The given material is assigned to the whole section.",
 ["inputs"],"dimension grids of each section function, incl. zero radii, non-square, extreme ratios, segment counts",
 "Each section function is used in tests with one or two sets of dimensions, if at all.",
 [L+"primitive_sections.py",L+"steel_sections.py",L+"utils.py"],[("section functions",L+"steel_sections.py"),("section functions",L+"primitive_sections.py"),("draw_radius, rotate",L+"utils.py")],["geometry.geom"])
p("C21","NASTRAN sections match their dimension definitions",
 "Every NASTRAN section with any valid dimensions has exactly the outline (area, extents, thicknesses, symmetry, holes) of its documented definition with the given material and its four recovery points at the documented positions, and dimension combinations its definition rules out are rejected.",
 ["inputs"],"dimension grids of each NASTRAN section, valid and invalid",
 "Each function is exercised at most once by the tests.",
 [L+"nastran_sections.py"],[("nastran_* functions",L+"nastran_sections.py")],["geometry.geom, recovery_points, ValueError"])
p("C22","Concrete sections contain exactly the specified concrete and reinforcement",
 "Every concrete library section with feasible dimensions contains the specified number of bars, each with exactly the specified bar area, material, cover and spacing not exceeding the given maximum, inside the concrete; the concrete region is the gross outline minus the bars, so no area is double counted, and the arrangement is symmetric where the section is. Zero or one bars in a layer are placed as documented.",
 ["inputs","configurations"],"grids of dimensions, bar counts, covers, spacings, single/double layers for each function",
 "Tests check areas for one or two parameter sets per function.",
 [L+"concrete_sections.py"],[("concrete_*, *_wall, *_lift_core*, stairwell, add_bar(s)",L+"concrete_sections.py")],["geoms, materials, areas, centroids"])
p("C23","Timber and bridge sections stack and dimension their parts as documented",
 "A cross-laminated timber section stacks its layers in the given order without gaps or overlaps, each with its own thickness and material, for any list of layers; bridge girder sections have the documented depth, widths and symmetry for every girder type and reject unknown types. The given material is used throughout.",
 ["inputs"],"all layer lists up to a length over a thickness/material alphabet; all girder types and parameter grids",
 "The tests use one or two layer lists with equal thicknesses and one girder type.",
 [L+"timber_sections.py",L+"bridge_sections.py"],[("clt_rectangular_section",L+"timber_sections.py"),("super_t_girder_section, i_girder_section",L+"bridge_sections.py")],["geometry extents, areas, materials"])
p("C24","Displayed result tables show exactly the available results",
 "After any sequence of analyses the displayed table lists every result computed so far under its proper name with the value the corresponding request returns (transformed by the reference modulus in the transformed table), and nothing that has not been computed. The composite and geometric-only tables use the matching set of quantities and the requested number format.",
 ["histories","configurations"],"all analysis subsets x composite or not x reference moduli x formats",
 "Tests only check that display does not fail.",
 [PO,S],[("print_results, print_transformed_results",PO),("display_results, display_transformed_results",S)],["console output"])
p("C25","Fibre export represents the section completely and unambiguously",
 "The exported fibre section contains one fibre per element with the element's area, centroid coordinates and mapped material, so that fibre areas and first moments sum to those of the section for every analysis type, warping-function cells carry the warping function about the origin, and text and file output are the same. Material names are mapped exactly one-to-one as requested (names differing in more than white space), whatever other names occur, and geometries and sections give the same export.",
 ["inputs","configurations"],"all small multi-material sections x analysis types x name mappings x widths x output targets",
 "Tests compare one or two exports by length or keywords.",
 [FI],[("to_fibre_section",FI)],["returned text / written file"])
p("C26","Stress results are independent snapshots",
 "Each stress analysis returns its own result: later stress analyses, other analyses, plots, re-meshing or edits to the returned list and dictionaries never change an earlier result, results computed in any order equal those computed alone, and stress plots and Mohr's circles show the very values of that result, over the section's mesh and with one colour range and colour bar for all materials.",
 ["histories"],"all interleavings of several load cases, plots and re-analyses up to a depth",
 "Tests compute one load case at a time.",
 [SP,S],[("StressPost.__init__, get_stress, plot_stress, plot_mohrs_circles",SP),("calculate_stress",S)],["StressPost.get_stress, plotted arrays"],[("material_groups","per-material stress accumulators",S)])
p("C27","CAD import reproduces the drawn regions",
 "A geometry read from a DXF drawing or a Rhino model or encoding describes exactly the drawn closed region including its holes, with the given spline and arc discretisation as the only approximation, wherever it lies in the drawing and in whatever order its curves are drawn.",
 ["inputs"],"all small lattice outlines with holes x drawing order/direction of curves x entity types",
 "Tests import a few fixed files.",
 [G,"src/sectionproperties/pre/rhino.py"],[("Geometry.from_dxf, load_dxf",G),("from_3dm, from_rhino_encoding, load_3dm, load_brep_encoding","src/sectionproperties/pre/rhino.py")],["geometry.geom"])
p("C28","Plots of geometry, mesh, centres and warping function show the section's data",
 "A plot of a geometry draws exactly the boundaries of its regions, marks its points, holes and control points where they are, and numbers each requested kind of item with its own index. A mesh plot draws exactly the elements that are not masked, each in the colour of its own material whatever is masked, with one legend entry for every distinct material; the printed mesh statistics are those of the mesh. A plot of centroids marks every centre that has been calculated, and nothing else, at the coordinates the corresponding request returns, with the principal axes through the elastic centroid at the principal angle; a warping plot contours the nodal warping function on the mesh, and every plot is drawn only on the axes that were supplied or selected, or saved to the named file, and changes nothing it shows.",
 ["inputs","histories","configurations"],"all label and option subsets, single and material masks, analysis histories up to a depth and target axes, on a family of geometries",
 "Tests only check that plotting does not fail.",
 [G,S,PO],[("Geometry.plot_geometry",G),("plot_mesh, plot_centroids, plot_warping_function, display_mesh_info",S),("plotting_context, draw_principal_axis",PO)],["artists on the matplotlib axes, console output, files"])
p("C29","A failing analysis leaves every existing result intact and can be repeated",
 "An analysis that fails - because an analysis it needs has not been run, the solver type is unknown, a linear solution does not converge, the factorisation is singular, or a plastic root search does not converge - raises an error, leaves every result available before it available and equal to what it was, never makes a wrong or placeholder result available (in requests, stress analyses or displayed tables), and repeating the analysis without the fault gives the results of a fresh section.",
 ["histories","fault_sequences"],"all sequences up to a depth of successful analyses and of analyses failing at each of their solver calls, on a family of sections, with and without progress display",
 "Tests never let a solver fail after other results exist.",
 [S,PL,SO],[("calculate_warping_properties, calculate_frame_properties, calculate_plastic_properties",S),("check_convergence",PL),("solve_cgs_lagrange, solve_direct_lagrange",SO)],["result requests and displays after a failing analysis"])
p("C30","Invalid input is rejected with the documented error and changes nothing",
 "Every call the documentation rules out raises the documented error whatever preceded it: geometries that are not polygons, inconsistent points, control points and materials, wrong mesh size lists, unusable alignments, split lines, offset boundaries and boolean operands, missing files, sections without a mesh or whose mesh has other regions, unknown solvers, fibre types and quadrature orders, results and analyses requested too early or for the other kind of section, and positions outside the section. A rejected call changes neither a geometry nor a mesh nor any result already available, and any sequence of rejected calls leaves later valid calls with exactly the outcome they have without it.",
 ["inputs","histories"],"every rejected call and all ordered pairs of them in every state reached by valid histories up to a depth, on a family of geometries and sections",
 "Tests try single invalid calls on fresh objects and never look at the objects afterwards.",
 [G,S,FI],[("Geometry.__init__, from_points, create_mesh, align_center, split_section, offset_perimeter, set operations",G),("Section.__init__, calculate_*, get_*",S),("to_fibre_section",FI)],["exceptions","geometry, mesh and results after the exception"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
