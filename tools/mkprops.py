"""One-off generator for properties.jsonl (kept so that the list is easy to edit)."""
import json, os
S = "src/sectionproperties/"
SEC, FEA, GEO, PRE = S+"analysis/section.py", S+"analysis/fea.py", S+"pre/geometry.py", S+"pre/pre.py"
SOL, PLA, POST, SP, FIB = S+"analysis/solver.py", S+"analysis/plastic_section.py", S+"post/post.py", S+"post/stress_post.py", S+"post/fibre.py"
BIS, RH = S+"pre/bisect_section.py", S+"pre/rhino.py"
LIB = S+"pre/library/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("P01", "Geometric integrals are exact and independent of the mesh",
  "For any section whose boundary is a set of straight segments, the reported area, exterior perimeter, mass, first moments, second moments of area and their modulus-weighted counterparts (EA, EQ, EI) equal the exact integrals over the given region(s) and material(s), to rounding. They do not depend on mesh size, minimum mesh angle, the coarse-mesh option or how the region is subdivided.",
  ["inputs", "configurations"], "every polygonal region set (concave, with holes, disjoint, nested, far from the origin, tiny or huge units), every material assignment and every mesh control",
  "Tests compare a few fixed shapes with tabulated values; exactness over all polygons, meshes and material layouts is a universally quantified statement that no finite table reaches.",
  [SEC, FEA, GEO], [("element quadrature of area, moments and moduli", FEA+": geometric_properties / Tri6.geometric_properties"), ("accumulation over elements", SEC+": calculate_geometric_properties / calculate_geom"), ("perimeter from the union outline", GEO+": calculate_perimeter")],
  observe=["Section.get_area, get_perimeter, get_mass, get_ea, get_q, get_eq, get_ig, get_eig"])
p("P02", "Derived geometric properties are mutually consistent",
  "Centroid, centroidal and principal second moments, principal angle, elastic section moduli, radii of gyration, effective elastic/shear modulus and effective Poisson's ratio are exactly the standard functions (quotients, parallel-axis theorem, eigen-decomposition, distances to the section's extreme fibres) of the section's integrals and outline. The principal axes diagonalise the second-moment tensor with the 11-axis the major one, and each modulus belongs to the extreme fibre on its own side.",
  ["inputs", "configurations"], "every section, homogeneous or composite, symmetric or not, including sections whose principal axes coincide or tie",
  "Identities over all sections; tests check a handful of doubly symmetric or tabulated shapes where swapped axes, signs and sides cannot be told apart.",
  [SEC, POST], [("centroid, centroidal/principal moments, moduli and radii", POST+": SectionProperties.calculate_elastic_centroid / calculate_centroidal_properties"), ("principal coordinates", FEA+": principal_coordinate"), ("public getters", SEC+": get_c, get_ic, get_ip, get_phi, get_z, get_zp, get_rc, get_rp, get_e_eff, get_g_eff, get_nu_eff")],
  observe=["Section getters after geometric analysis"])
p("P03", "Results transform correctly under rigid motion, mirroring and change of units",
  "Translating, rotating or mirroring a section transforms every reported geometric, warping, shear, plastic and stress result exactly as the mathematics dictates (invariants unchanged, vectors and tensors rotated or reflected), and scaling the length or modulus unit scales every result by its physical dimension. Agreement is to discretisation error, and to rounding when the same mesh is carried along.",
  ["inputs", "configurations"], "every section, every translation vector, angle, mirror axis and scale factor",
  "Metamorphic statement over pairs of executions; the tests compare single executions against tables at one position, orientation and unit.",
  [SEC, FEA, GEO, POST, PLA], [("elastic-centroid origin for warping and stress analysis", SEC+": calculate_warping_properties, calculate_stress"), ("principal-axis rotation", FEA+": principal_coordinate, global_coordinate"), ("shift/rotate/mirror", GEO+": Geometry.shift_section, rotate_section, mirror_section")])
p("P04", "The mesh is a faithful triangulation of the geometry",
  "Every mesh covers exactly the region(s) of the geometry: six-node elements are counter-clockwise with positive area and mid-side nodes at edge midpoints, neighbouring elements share nodes, holes stay empty, all given points and facets appear in the mesh. Every element carries the material and region of the sub-region that contains it, each region respects its own maximum element area and minimum angle, and meshing leaves the geometry otherwise unchanged.",
  ["inputs", "configurations"], "every valid geometry and compound geometry, every scalar or per-region mesh size list, minimum angle and coarse flag",
  "Mesh generation tests only check that a mesh exists or count elements; fidelity has to hold for every geometry, and wrong region/material attribution is invisible in single-region tests.",
  [PRE, GEO, SEC], [("triangulation input (points, facets, holes, regions)", PRE+": create_mesh"), ("mesh-size list normalisation", GEO+": Geometry.create_mesh, CompoundGeometry.create_mesh"), ("element/material attribution", SEC+": Section.__init__"), ("point/facet/hole/control-point extraction", GEO+": Geometry.compile_geometry, CompoundGeometry.compile_geometry")])
p("P05", "Torsion and warping results solve the Saint-Venant problem on the mesh",
  "The reported torsion constant, warping function and warping constant satisfy the discrete Saint-Venant warping problem of the section's own mesh (modulus-weighted for composite sections) as stated in the theory documentation. The torsion constant is positive and bounded above by the polar second moment about the centroid, the warping constant is non-negative, and both converge to known closed-form values as the mesh is refined.",
  ["inputs", "configurations"], "every connected section, homogeneous or composite, with and without holes, on every mesh",
  "Tests compare J and warping constant at a loose tolerance for a few shapes; wrong assembly terms that cancel for symmetric, homogeneous or axis-aligned shapes escape them.",
  [SEC, FEA, SOL], [("element torsion stiffness and load", FEA+": Tri6.torsion_properties"), ("assembly and linear solves", SEC+": assemble_torsion, calculate_warping_properties; "+SOL), ("warping integrals", FEA+": Tri6.shear_warping_integrals")],
  observe=["Section.get_j, get_ej, get_gamma, get_egamma, section_props.omega"])
p("P06", "Shear centre, shear areas and monosymmetry constants are right",
  "The reported shear centres (elasticity and Trefftz, in the user and principal axes), shear areas about both axis systems and monosymmetry constants equal those of the shear problem stated in the theory documentation, solved on the section's own mesh with the stated effective Poisson's ratio. The shear centre lies on every axis of symmetry and coincides with the centroid for doubly symmetric sections, Trefftz and elasticity centres coincide at zero Poisson's ratio, no shear area exceeds the total area, and monosymmetry constants for the two sides of an axis are opposite and vanish for symmetry about that axis.",
  ["inputs", "configurations"], "every connected section, homogeneous or composite, on every mesh",
  "Tests sample a few textbook sections, mostly with symmetry and zero Poisson's ratio, where cross-terms vanish.",
  [SEC, FEA, POST], [("shear load vectors and coefficients", FEA+": Tri6.shear_load_vectors, shear_coefficients"), ("monosymmetry integrals", FEA+": Tri6.monosymmetry_integrals"), ("shear centre/area assembly", SEC+": calculate_warping_properties"), ("public getters", SEC+": get_sc, get_sc_p, get_sc_t, get_as, get_as_p, get_beta, get_beta_p")])
p("P07", "Stresses are the exact elastic field and are in equilibrium with the loads",
  "For any combination of applied forces and moments, the normal stress at every node of every material is exactly the elastic beam-theory value for that material's modulus, about the elastic centroid with the documented sign convention. The stress fields integrate back to the applied actions (axial force, both bending moments, shear forces and torsion), each action producing no resultant of any other kind, and shear and torsion stresses agree with the discrete shear and warping solution of the section's mesh.",
  ["inputs", "configurations"], "every section, material layout, load combination (user-axis and principal-axis moments, signs, magnitudes) and mesh",
  "Tests check a few named components at a few points of symmetric sections under single loads.",
  [SEC, FEA, SP], [("element stress recovery and extrapolation to nodes", FEA+": Tri6.element_stress, extrapolate_to_nodes"), ("nodal averaging per material", SEC+": calculate_stress"), ("stress storage", SP+": StressResult")],
  observe=["StressPost.get_stress, section_props"])
p("P08", "Stress results superpose linearly and derived stresses follow their definitions",
  "Each stress component is linear in the applied actions and the component for one action never depends on the others; every combined component (total bending, shear, torsion+shear, total normal) is the sum of its parts. Resultant shear, von Mises, major/minor principal stresses (and the Mohr's circles drawn from them) at every node are exactly the documented functions of the normal and shear components there, never NaN for finite input.",
  ["inputs", "configurations"], "every section and every pair of load cases and scale factors, including zero and sign-reversed loads",
  "Linearity relates several executions; tests look at single load cases.",
  [SEC, SP, FEA], [("sums of stress components", SP+": StressResult.calculate_combined_stresses"), ("stress export", SP+": StressPost.get_stress, plot_mohrs_circles"), ("multi-load element recovery", FEA+": Tri6.element_stress")])
p("P09", "Stress at a point agrees with the stress field",
  "The stress reported at an arbitrary point inside the section equals the elastic field there - exactly for normal stress, and equal to the element's own interpolated field for shear - it is independent of the order and number of points queried, respects the requested aggregation on points shared by several elements and reports nothing for points outside the section. Single-point and multi-point queries and all documented result fields agree, before and after other analyses.",
  ["inputs", "configurations", "histories"], "every point (interior, vertex, edge, material interface, hole, outside), every load combination, every material layout",
  "Tests query a few points on symmetric sections; the point locator and interpolation have to work at every location.",
  [SEC, FEA], [("point location in the mesh", SEC+": get_stress_at_points, get_stress_at_point"), ("element local interpolation", FEA+": Tri6.local_coord, local_element_stress")])
p("P10", "Yield moments are the first-yield moments",
  "The reported yield moment about each user and principal axis is the smallest bending moment about that axis at which some material in the section reaches its yield strength under elastic bending: applying it alone gives a maximum stress-to-strength ratio of exactly one. It scales with strengths, is unaffected by translation or by materials being equal but distinct objects, and never exceeds the plastic moment about the same axis (for axes on which bending is uncoupled).",
  ["inputs", "configurations"], "every composite section with any strengths, any number of materials, any moduli ratio, symmetric or not",
  "The test suite covers one or two layouts; governing material/fibre changes with parameters and no sample of layouts reaches all governing cases.",
  [SEC, FEA, POST], [("per-element extreme stress to strength ratio", SEC+": calculate_geometric_properties (yield moment)"), ("stress for unit moments", FEA), ("public getters", SEC+": get_my, get_my_p")])
p("P11", "Plastic properties satisfy force and moment equilibrium",
  "For each user and principal axis the plastic neutral axis splits the section into two parts of equal yield force (equal area for homogeneous sections), the plastic centroid lies on it, and the plastic section modulus/moment equals the first moment of the yield force about it. Shape factors are the quotient of the plastic and elastic capacities and are at least one for the governing fibre of homogeneous sections; results do not depend on mesh or position, and the analysis does not alter the section.",
  ["inputs", "configurations"], "every section, homogeneous or composite (any strengths), symmetric or not, rotated and translated",
  "Tests check a handful of shapes whose plastic axis is on an axis of symmetry or known analytically.",
  [PLA, BIS, SEC, POST], [("neutral-axis search", PLA+": PlasticSection.pc_algorithm, evaluate_force_eq, check_convergence"), ("force and centroid of split parts", PLA+": calculate_plastic_force"), ("bisecting geometry by a line", BIS), ("public getters", SEC+": get_pc, get_pc_p, get_s, get_mp, get_sp, get_mp_p, get_sf, get_sf_p")])
p("P12", "Composite results depend on where material is, not on how it is described",
  "Splitting a region into sub-regions of the same material, reordering the regions, giving equal materials as distinct objects, or scaling all moduli by one factor changes no result beyond its physical scaling and discretisation error. A section made of one material gives the homogeneous results times that material's constants, and results requested with respect to a reference modulus are the modulus-weighted results divided by that modulus.",
  ["inputs", "configurations"], "every compound section, partition of it, ordering and material description, every reference modulus (number or material)",
  "Relates several descriptions of the same section; tests use one description each.",
  [SEC, PRE, POST, GEO], [("material list and element grouping", SEC+": Section.__init__, is_composite, material_groups"), ("modulus-weighted getters with e_ref", SEC+": get_* (e_ref)"), ("Material value object", PRE+": Material")])
p("P13", "All analysis routes and solvers give the same answer",
  "The direct and iterative solvers, the stand-alone frame analysis versus geometric-plus-warping analysis, and the progress-reporting versus silent paths produce the same properties, to solver tolerance. A solve that does not meet its tolerance is reported as an error rather than returned as a result.",
  ["inputs", "configurations"], "every section (homogeneous and composite, connected and disjoint) and every combination of solver, route and reporting options",
  "Tests exercise one route per section; agreement across routes must hold for all sections.",
  [SEC, SOL], [("direct and CGS solves with Lagrange multiplier", SOL+": solve_direct, solve_cgs, solve_direct_lagrange, solve_cgs_lagrange"), ("frame analysis", SEC+": calculate_frame_properties"), ("warping analysis", SEC+": calculate_warping_properties")])
p("P14", "Geometry transforms are pure, isometric and keep attributes",
  "Shifting, rotating, mirroring and aligning a geometry returns a new geometry that is exactly the isometric image of the original about the documented point or axis, leaves the original untouched, and keeps material, tolerance and (transformed) user-assigned control points of every region. Inverse transforms restore the geometry; align operations place exactly the requested extents or centres together and move nothing on the other axis.",
  ["inputs", "histories"], "every geometry or compound geometry and every sequence of transforms",
  "Tests check single transforms of simple rectangles about default points.",
  [GEO], [("shift/rotate/mirror/align on a geometry", GEO+": Geometry.shift_section, rotate_section, mirror_section, align_to, align_center"), ("the same on compounds", GEO+": CompoundGeometry.shift_section, rotate_section, mirror_section, align_center")])
p("P15", "Boolean, split, offset and point-edit operations obey set algebra",
  "Union, difference, intersection, symmetric difference and concatenation of geometries represent exactly the corresponding point sets, splitting along a line yields non-overlapping parts on the stated sides whose union is the original, and offsetting moves the stated boundary by the stated distance (growing or eroding) for single and compound geometries alike. Every resulting region keeps the material (and tolerance) of the operand region it came from (binary set operations: of the left operand), the operands are not modified, and moving vertices by index moves exactly those vertices to the requested position.",
  ["inputs", "programs"], "every pair of geometries (overlapping, touching, nested, disjoint, with holes, compound) and every sequence of operations",
  "Tests check some simple overlapping rectangles; the algebra must hold for all operand pairs.",
  [GEO, BIS], [("operator overloads", GEO+": Geometry.__or__, __sub__, __and__, __xor__, __add__"), ("split", GEO+": Geometry.split_section, CompoundGeometry.split_section; "+BIS), ("offset", GEO+": Geometry.offset_perimeter, CompoundGeometry.offset_perimeter"), ("vertex edit", GEO+": Geometry.shift_points")])
p("P16", "Imported geometry equals its source",
  "Geometry built from points/facets/control-points/holes lists, from DXF files and from Rhino models/encodings represents exactly the described region(s) with the given materials, in the documented order of rings, whatever the orientation, start vertex and numbering of the points, and exporting a geometry's own points, facets, holes and control points and re-importing them reproduces it. Descriptions documented as invalid (wrong number of control points or materials, control points outside the material, missing files, several regions without control points) are rejected with an error rather than silently altered.",
  ["inputs"], "every valid polygonal region set with holes and materials, every orientation, start vertex and point numbering of its rings, every supported file unit and option",
  "Round trip over all geometries; tests import a few fixed files/lists.",
  [GEO, RH], [("from_points for single and compound", GEO+": Geometry.from_points, CompoundGeometry.from_points"), ("DXF/3dm/encoding import", GEO+": load_dxf, Geometry.from_dxf, from_3dm, from_rhino_encoding; "+RH), ("facet graph tracing", GEO+": create_facets, create_exterior_points, create_interior_points, create_points_and_facets")])
p("P17", "Primitive, steel, timber and bridge library sections have their documented shape",
  "For all valid dimensions, each primitive, steel, timber and bridge library function returns the section drawn in its documentation: overall extents, wall/flange thicknesses, position, symmetry, hole count, layers and materials match the arguments and the area, centroid and second moments match the closed form (including fillets/radii within the polygonal-arc error, converging as the number of arc points grows).",
  ["inputs"], "all dimension combinations for which the section is realisable, including zero radii, equal thicknesses and unequal layers",
  "The tests check very few parameter sets, or just build the section; dimension mix-ups only appear for unequal arguments.",
  [LIB+"primitive_sections.py", LIB+"steel_sections.py", LIB+"timber_sections.py", LIB+"bridge_sections.py", LIB+"utils.py"], [("primitive shapes", LIB+"primitive_sections.py"), ("steel shapes", LIB+"steel_sections.py"), ("clt layers", LIB+"timber_sections.py"), ("bridge girders", LIB+"bridge_sections.py"), ("radius discretisation", LIB+"utils.py: draw_radius")])
p("P18", "Concrete library sections place concrete and steel exactly as specified",
  "For all valid dimensions and bar layouts, a concrete library section contains the requested concrete outline with the requested number of bars of the requested exact area, each at the specified cover and spacing, wholly inside the concrete, with concrete removed where the bars are (no overlap, no gap) and materials attached to the right regions. Gross area = concrete area + steel area for every layout, and adding a bar to any geometry preserves this.",
  ["inputs", "configurations"], "all dimensions, covers, bar counts, bar diameters/areas, tension/compression/side layouts and materials, for every concrete section function",
  "Tests try one parameter set per section function.",
  [LIB+"concrete_sections.py", LIB+"utils.py"], [("section builders", LIB+"concrete_sections.py"), ("bar insertion", LIB+"concrete_sections.py: add_bar, rectangular_wall"), ("exact-area bar polygon", LIB+"primitive_sections.py: circular_section_by_area")])
p("P19", "NASTRAN library sections match the NASTRAN dimension definitions",
  "For all valid dimensions, each NASTRAN library function returns the section of the documented PBARL/PBEAML dimension drawing: extents, wall thicknesses, holes, symmetry, area and second moments match the closed form in the dimensions. The documented stress recovery points are the stated points of that section.",
  ["inputs"], "all dimension combinations allowed by the NASTRAN definitions",
  "Tests cover two of the twenty sections.",
  [LIB+"nastran_sections.py"], [("section builders and recovery points", LIB+"nastran_sections.py")])
p("P20", "Results are only available when valid for the calls made so far",
  "Under every sequence of analysis and query calls, a result is returned only if an analysis that computes it has been run on that section, and is otherwise refused with an error that says what to run; geometric-only and composite-only results are refused for the wrong kind of section, and stress or warping analysis before its prerequisites is refused. Re-running an analysis or running analyses in any permitted order yields the same results, and a failed call changes no available result and exposes no wrong one.",
  ["histories", "inputs"], "every sequence of analysis/query calls on homogeneous, composite and disjoint sections",
  "Sequence-quantified; tests check a few fixed refusals.",
  [SEC, POST], [("result guards", SEC+": get_* getters, calculate_* preconditions"), ("result store", POST+": SectionProperties")])
p("P21", "Fibre export preserves the section",
  "The exported fibre section lists exactly one fibre per mesh element (or per analysed fibre) with unique consecutive tags, the element's own area, position and material name, so that the fibres' total area, first moments and per-material areas match the section's; the header's properties match those reported and any user material mapping is applied to exactly the named materials. Saving to a file writes exactly the returned text.",
  ["inputs", "configurations"], "every section, material naming (including names that are prefixes of each other or of other keywords), mapping and tag options",
  "The test exports one section and checks a few lines.",
  [FIB], [("fibre text generation and mapping", FIB+": to_fibre_section")])
p("P22", "Results do not depend on what else ran in the process",
  "Analysing a section gives bit-identical results on repetition and regardless of which other sections, analyses, plots or queries were executed before, in between or concurrently in the same process. No analysis, query or plot mutates the geometry, materials, mesh, loads, shared integration data or previously returned results.",
  ["histories", "schedules"], "every interleaving of operations on several sections, in one thread or in several",
  "Tests run each section alone in a fixed order; shared caches and aliasing only show under other histories.",
  [FEA, SEC, POST], [("cached quadrature and shape functions", FEA+": gauss_points, __shape_function_cached, shape_function_only"), ("in-place result accumulation", SEC), ("result objects", POST)],
  state=[("integration caches", "module-level cached arrays shared by all sections", FEA)])
p("P23", "Reports show the computed results",
  "The result table printed to the terminal, the dictionary form of the results, and the transformed results of composite sections show exactly the values obtainable from the corresponding getters, in the right rows and with the requested number format, for each kind of section and each analysis state. Transformed results are the modulus-weighted results divided by the given reference modulus (or that of the given material).",
  ["inputs", "configurations", "histories"], "every section kind, analysis state, format string and reference modulus",
  "Tests only smoke-run the display.",
  [SEC, POST], [("results table", POST+": print_results"), ("dictionary form", POST+": SectionProperties.asdict"), ("transformed results", SEC+": display_transformed_results; "+POST+": print_transformed_results")])
p("P24", "Plots draw the computed data and change nothing",
  "Every plot (geometry, mesh, centroids, stress contours and vectors, Mohr's circles) draws the coordinates, centroids, axes and stress values of the section it is called on, for the requested components, materials and scaling, and returns the axes it drew on. Plotting never alters the section or its results and works for every section kind and requested component.",
  ["inputs", "configurations", "histories"], "every plot type, stress component, material subset, section kind and analysis state",
  "The plot tests only check that no exception is raised for one section.",
  [SEC, POST, SP, GEO], [("geometry/mesh/centroid plots", GEO+": plot_geometry; "+SEC+": plot_mesh, plot_centroids; "+POST), ("stress plots", SP+": plot_stress, plot_stress_vector, plot_mohrs_circles")])
p("P25", "Invalid input is rejected or warned about, valid input never is",
  "Regions that overlap (plastic analysis), disjoint regions (warping analysis), malformed mesh sizes, unknown stress components, unsupported solver names, unusable operands and missing meshes are reported by the documented warning or error, exactly when the condition really holds. Valid input - any translation, rotation or scale of it - triggers no spurious warning or error.",
  ["inputs", "configurations"], "every geometry (touching, overlapping, nested, disjoint), every argument combination",
  "Tests check a few triggering examples and never the absence of false alarms.",
  [SEC, GEO, POST], [("disjoint/overlap detection", GEO+": check_geometry_overlaps, check_geometry_disjoint"), ("warnings during analysis", SEC+": Section.__init__, calculate_warping_properties"), ("input validation", GEO+": create_mesh, from_points")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
