NOTES = {
"C01": "Every region is integrated exactly with rational arithmetic from the very floats the library was given, so no mesh, no tolerance of a mesher and no quadrature is shared. Polyominoes give all combinations of re-entrant corners and symmetric/asymmetric layouts, lattice triangles every slope sign, labellings every void/material adjacency; the maps move each off origin (where parallel-axis terms matter), mirror it and make it thin.",
"C02": "The mesh is judged combinatorially (edge manifold argument) rather than through areas alone, so an overlapping pair of elements cannot be compensated by a gap. *Decision:* without an angle limit (min angle 0) the mesher may produce slivers within round-off, therefore only exactly representable maps are used there.",
"C03": "Purely relational: the transformed section is solved on the base mesh mapped node by node, so the finite element error cancels and every result must follow its tensor rule to round-off. Small angles (0.004 degrees) catch tolerance decisions in the principal axis angle.",
"C04": "The reference is a second, dense implementation with a different constraint technique. *Decision:* for the two quartic integrals (I_omega, composite kappa) the library's own degree-3 quadrature is accepted next to the exact one. J on a refined mesh may not exceed the coarse value (the torsion functional bounds J from above).",
"C05": "The frame analysis is a separate code path of several hundred lines which the tests compare for a handful of sections. *Decision:* when the iterative solver gives up (RuntimeError) this is accepted if the full analysis with that solver gives up as well.",
"C06": "The plastic neutral axis is found exactly by bisection on exact half-plane clipping. Where the force balance has a plateau (equal-area halves with a gap), every position of the plateau is accepted and the modulus must be the first moment at it.",
"C07": "*Decisions:* stress groups are matched per distinct material; moments about global axes are only compared with moduli where the product moment vanishes.",
"C08": "The reference resultants are themselves checked to equal the applied actions, so a common mistake in the formulas of both implementations would show as a lack of equilibrium.",
"C09": "Which elements adjoin a point is decided in exact rational arithmetic on the mesh coordinates; points within round-off of an edge are only required to give one of the adjoining values or none.",
"C10": "States of the *pair* of real sections (and their geometry) are enumerated breadth first and merged by content. *Decisions:* look-ups that fill caches are not violations; where the iterative solver refuses a section the operation is skipped.",
"C11": "*Decision:* after a frame analysis at least area, ic/eic, phi and j/ej must be available; other results may or may not.",
"C12": "All connected partitions of a labelled box are descriptions of the same section.",
"C13": "Sequences of operations are composed as exact affine maps on every vertex.",
"C14": "Cell sets decide membership exactly; affine maps add the round-off that makes touching shapes nearly touch.",
"C15": "Cell combinatorics gives the exact number of points and edges, which voids exist, and what is connected.",
"C16": "*Decisions:* the facets are listed loop after loop, as documented; compounds whose regions surround one another are excluded (points and facets alone do not determine them).",
"C17": "*Decision:* for a line within round-off of vertical either naming convention (right/top) is accepted.",
"C18": "*Decisions:* an interior offset moves the hole outlines; amounts that exactly remove a part are not decided in rotated frames; growing compounds are decided where the regions meet along straight edges, the strip along each moved edge belonging to the region that owns the edge.",
"C19": "*Decision:* the target's centroid is the one the documentation names (geometric for a plain geometry).",
"C20": "*Decisions:* one-segment rounding with a non-zero radius and lips not longer than the wall are outside the documented domain; a lip between the thickness and the outer radius has a lip radius equal to its length; the bulb has a 30 degree slope.",
"C21": "Seventeen functions place their outline with its lower left corner at the origin although their documentation and recovery points use another origin: recorded as known findings (each identified by function; a third position would be a violation). Repairing them would move the sections of every existing user.",
"C22": "*Decision:* a layer of length L and spacing s has ceil(L/s)+1 bars; counts which round-off decides are skipped.",
"C23": "*Decision:* the super-T web has the constant perpendicular thickness t_w along the 10.556 slope.",
"C24": "The rows of the printed table are parsed and compared with what the requests return at that moment, so every row is bound to its getter.",
"C25": "The export is parsed as text. *Decisions:* names equal up to white space are excluded; a header may contain one extra tag token.",
"C26": "*Decision:* in-place modification of the returned arrays themselves is not claimed (the API returns them uncopied and documents nothing).",
"C27": "*Decisions:* islands inside holes are not claimed; touching regions are compared by their union only. A finding in the dependency (bulges of light-weight polylines) is recorded.",
"C28": "The artists on the axes are read back (lines, collections with their final face colours, marks, texts, legends). The exact polygons of the case are the oracle for the outline, the getters (decided by C01-C06) for centres and angle. *Decision:* the mask has one entry per element (the documentation says nodes; matplotlib accepts only elements).",
"C29": "Fault injection on the real code: the solver functions, the incomplete factorisation and the root search are replaced in the library's modules by wrappers that fail (or report non-convergence with a wrong root) at their k-th call; wrappers that are never reached are counted, not judged, so a restructured library is not blamed. Every state also answers all requests, a bending and a shear stress analysis and both tables. Only failures the library itself can raise are injected (not interrupts or memory exhaustion at arbitrary points: the geometric analysis accumulates in place and makes no promise there).",
"C30": "Breadth-first over valid histories with every invalid call tried in every state; the digest covers the outline, the compiled lists, the mesh arrays, every attribute of the results object and the stresses. *Decisions:* only errors the docstrings name are demanded; operands that are no geometry may raise any of ValueError, TypeError and AttributeError; a rejected frame analysis may have filled in missing geometric results (it computes them first) but must keep existing ones; invalid boundaries of growing compounds are not claimed (their docstring names no error).",
}
