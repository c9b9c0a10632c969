# ---------------------------------------------------------------- matrices
prop("P01", "Storage layouts return exactly what was written, and refuse bad locations",
  "For every storage layout, after any sequence of writes every readable location holds the last value written to it and every other location its initial value, through indexing, optional access, iteration, rows, columns and diagonals alike. Locations outside the shape (or outside the stored structure, for writing) are refused and never read or alter another entry. Shape and data length given at construction are respected or rejected.",
  ["inputs", "histories"], "all shapes up to the bounds, all entry values, all in- and out-of-range locations near the bounds, all write orders of the listed scripts",
  "tests write one fixed matrix per layout; index arithmetic errors show up only for particular shapes, envelopes or write orders",
  ["src/matrix/mod.rs", "src/matrix/buffer.rs", "src/matrix/sparse.rs"], "flat, triangular, banded and hash-map index arithmetic behind one matrix interface",
  "shapes up to 3x3 (4x4 thorough), all structural patterns of that size, entries arbitrary reals; index arguments up to two beyond each bound; beyond that, fixed cases: matrices of 9 and 10 rows with drawn structure and arbitrary values",
  state=[("stored entries", "value at each (row, column)")], observe=["element access, iterators"])
prop("P02", "Converting, masking, permuting and transposing keep every entry in its place",
  "Converting a matrix between layouts, transposing it, extracting rows and columns, dropping rows and columns, permuting it symmetrically, or accumulating a scaled copy yields exactly the entries the textbook definition gives, including explicitly stored zeros, empty rows and rectangular shapes. The reported row extents and the adjacency of the sparse structure agree with the entries.",
  ["inputs", "configurations"], "all sparsity patterns and shapes up to the bounds, all entry values, all permutations and masks",
  "tests use one or two fixed patterns; empty rows, stored zeros and rectangular shapes are not sampled",
  ["src/matrix/sparse.rs", "src/matrix/buffer.rs", "src/matrix/mod.rs"], "iteration over the stored entries feeding another layout's constructor",
  "square matrices up to 3x3 with every pattern (rectangular 2x3 and 3x2), all permutations and masks of 3, entries arbitrary reals; beyond that, fixed cases: drawn structures of up to 12 rows with arbitrary values")
prop("P03", "Products, sums, scalings and rotations are the textbook ones in every layout",
  "The product, sum, difference or scaling of matrices of any supported layouts equals the textbook result entry by entry, whatever the layouts of the operands and of the result. Operands of unsuitable shape are refused.",
  ["inputs", "configurations"], "all shapes up to the bounds, all sparsity patterns, all values",
  "tests multiply a few fixed matrices; a wrong band or an uninitialised entry shows only for particular patterns",
  ["src/matrix/mod.rs", "src/matrix/sparse.rs", "src/matrix/buffer.rs", "src/matrix/norm.rs"], "generic and specialised multiplication loops",
  "shapes up to 3, all sparsity patterns of 3x3 for banded/sparse operands, entries arbitrary reals; beyond that, fixed cases: drawn larger operands with arbitrary values")
prop("P04", "Triangular substitution and inversion solve the triangular system given",
  "For every nonsingular triangular matrix and right-hand side, forward or backward substitution, in dense or banded storage, on the whole or a leading or trailing block, yields the exact solution regardless of what the output buffer held. Triangular inverses multiply back to the identity.",
  ["inputs", "configurations"], "all row extents of banded matrices up to the bounds, all non-zero diagonals, all right-hand sides",
  "tests use one fixed triangular matrix; a band off by one or a stale buffer read needs a particular envelope",
  ["src/matrix/buffer.rs", "src/matrix/sparse.rs", "src/matrix/solve/direct.rs"], "substitution loops over row envelopes",
  "dense n <= 4 (5 thorough), every envelope of n <= 4 (5 thorough), entries arbitrary reals with non-zero diagonal; beyond that, fixed cases: drawn structures of 8 to 13 unknowns with fixed factor and symbolic right-hand side")
prop("P05", "LU, Cholesky and LDL' factors multiply back to the matrix factored",
  "For every matrix a factorisation accepts, the factors it returns have the promised triangular, unit-diagonal or banded structure and their product is the original matrix (row-permuted as reported, for LU). Symmetric positive definite matrices are always accepted by the symmetric factorisations.",
  ["inputs", "configurations"], "all square matrices up to the bounds; all envelopes of symmetric positive definite matrices up to the bounds",
  "tests factor fixed 3x3 and 4x4 matrices; pivot choices and fill inside other envelopes are not reached",
  ["src/matrix/inverse.rs", "src/matrix/solve/direct.rs", "src/matrix/sparse.rs"], "partial pivoting; row-envelope Cholesky and LDL' loops",
  "LU n <= 3 (4 thorough), Cholesky and LDL' n <= 4 (5 thorough for LDL'), every envelope, entries arbitrary reals; beyond that, fixed cases: drawn structures of 6 to 11 unknowns with one free pivot")
prop("P06", "Determinants and inverses are exact, and singular matrices are refused",
  "For every square matrix the determinant equals the Leibniz sum, and the inverse, when returned, multiplies with the matrix to the identity on both sides. Non-square matrices are refused, a singular one never gets a finite inverse, and a clearly nonsingular one is never refused.",
  ["inputs"], "all square matrices up to the bounds, including zero leading entries and singular ones",
  "tests invert a few fixed matrices with friendly pivots",
  ["src/matrix/inverse.rs", "src/matrix/buffer.rs"], "closed forms for small sizes, LU with pivoting beyond",
  "dense n <= 3 fully symbolic, n = 4 with part of the entries symbolic; determinant tolerance of the implementation treated as part of its contract; beyond that, fixed cases: drawn matrices of 4 to 8 rows with one free pivot, regular and singular; with machine rounding: 13 listed badly scaled but well-conditioned matrices (60 thorough), every vector")

prop("P07", "Direct solvers return the solution of K u = r in the caller's ordering",
  "For every symmetric positive definite system the banded Cholesky solver returns the exact solution in the original numbering whatever the sparsity, including disconnected and isolated unknowns. Dense elimination returns a solution of every nonsingular system and reports failure exactly when the system is singular; no solver returns a non-finite or wrong vector.",
  ["inputs", "configurations"], "all systems up to the bounds; all sparsity patterns of SPD systems; systems given at once or accumulated entry by entry",
  "tests solve a handful of fixed systems, all connected and with friendly pivots; unusual numberings, zero pivots and singular systems are not reached",
  ["src/matrix/solve/direct.rs", "src/matrix/solve/mod.rs", "src/matrix/graph.rs", "src/matrix/sparse.rs"], "bandwidth-reducing permutation, envelope factorisation, substitution, un-permutation; elimination with pivoting",
  "elimination: dense n <= 3; Cholesky: n <= 4, all 64 patterns at n = 4; values arbitrary reals; beyond that, fixed cases: drawn matrices of 4 to 9 (elimination) and 6 to 12 (Cholesky) unknowns, symbolic right-hand side; with machine rounding: 13 listed badly scaled but well-conditioned matrices (60 thorough), every load", note="Elimination with all 9 entries symbolic at n = 3 does not exhaust every case within the quick budget; evidence lists which.", quick_job_s=45,
  state=[("K, r", "accumulated system"), ("permutation", "ordering used internally")])
# ---------------------------------------------------------------- elements

prop("P13", "Element stiffness has the exact energy of every constant strain state",
  "For every non-degenerate triangle, material and thickness, the element stiffness is symmetric and its bilinear form on any two linear displacement fields is the exact strain energy of those fields, so rigid motions cost nothing. It does not depend on where the node numbering starts or on its orientation, and the energy is never negative.",
  ["inputs"], "all triangles of non-zero area in both orientations, all admissible materials and thicknesses, all displacement fields",
  "tests check one or two fixed elements against stored numbers",
  ["src/element/element.rs", "src/element/integrate.rs", "src/element/strain.rs", "src/element/material.rs"], "Gauss integration of B' C B det J",
  "coordinates in [-100, 100], area at least 0.005, and the same 4096 times smaller and larger; E > 0, -1 < nu < 1/2, thickness > 0; axisymmetric: radius >= 1/8 and ring-constant strain fields only (other fields carry 1/r, which the quadrature does not integrate exactly); with machine rounding: three triangles at four places 10^6 from the origin, every displacement", harness=[U, F, "p13.rs"])

prop("P14", "Element mass carries exactly the element's mass in each direction",
  "For every non-degenerate triangle, density and thickness, the element mass matrix is symmetric, uncoupled between directions, equal in both, and a rigid translation carries exactly the element's mass; in plane conditions it is the exact consistent mass matrix. Kinetic energy of a non-zero velocity is positive.",
  ["inputs"], "all triangles of non-zero area in both orientations, all densities and thicknesses",
  "no test looks at a mass matrix beyond a fixed element",
  ["src/element/element.rs", "src/element/integrate.rs"], "Gauss integration of rho H' H det J",
  "as for stiffness; axisymmetric radius >= 1/8; positivity on one fixed triangle with arbitrary velocity; with machine rounding: three triangles at four places 10^6 from the origin, every velocity", harness=[U, F, "p14.rs"])

prop("P15", "Every load reaches the assembled load vector once, in full, at its nodes",
  "The assembled load is the sum of all concentrated loads at their nodes and, for each loaded edge, half its resultant at each end, counted once however many elements share the edge. Nodes away from any load receive exactly nothing, and an edge no element has is refused rather than misapplied.",
  ["inputs", "histories"], "all edge geometries and force values, all combinations of two loaded edges and concentrated loads, edges named from either end, elements of either orientation",
  "tests apply one load to one mesh",
  ["src/element/element.rs", "src/element/mod.rs", "src/element/integrate.rs"], "edge quadrature per element, accumulation over hash maps",
  "one element of arbitrary geometry for edge integration; a square of two triangles for combinations, up to two distributed loads plus concentrated ones; a few hash iteration orders; beyond that, fixed cases: strips of 6 to 12 elements with up to twelve loaded edges and every node loaded, loads symbolic; histories: loads added in 4 listed orders between assemblies", harness=[U, F, "p15.rs"])

prop("P16", "Global matrices are the sum of the elements over shared degrees of freedom",
  "The global stiffness and mass are the sums of the element matrices scattered to their nodes, whatever the order in which elements or their nodes are listed, with zeros for unconnected nodes. Any linear displacement field leaves an interior node in equilibrium and costs the exact strain energy of the whole patch.",
  ["inputs", "configurations"], "all positions of the free node, materials, element orders, node rotations and orientations",
  "tests assemble one mesh and compare with stored numbers",
  ["src/element/mod.rs", "src/element/element.rs"], "scatter-add over node degrees of freedom",
  "meshes of two elements out of three candidates and a five-node patch of four elements; node position, material and thickness symbolic; beyond that, fixed cases: renumbered strips and fans of up to 10 elements, symbolic material and thickness; histories: K and M asked for after every element of 6 growing bodies", harness=[U, F, "p16.rs"])

prop("P17", "Restraints are never lost, and reduce the system to the admissible displacements",
  "After any sequence of restraints added to a node, every requested axis restraint is in force and none is invented; an inclined restraint stays as long as no axis restraint replaces it. The change of variables the restraints define satisfies every one of them, and the reduced matrix and load are exactly B'KB and B'R for the basis B of admissible displacements.",
  ["inputs", "histories"], "all sequences of three restraints on a node, all restraint combinations on two nodes (three thorough), all angles, matrices and loads",
  "tests use one combination of restraints",
  ["src/element/constraint.rs", "src/element/mod.rs"], "per-node merging; elimination of struck degrees of freedom with rotation at inclined supports",
  "sequences of 3 restraints of 5 kinds; up to 2 nodes (3 thorough) with symbolic angle, K and R; beyond that, fixed cases: drawn restraints on 4 to 7 nodes, at most two inclined; 50 drawn sequences of 5 and 6 restraints", harness=[U, F, "p17.rs"])
prop("P18", "Computed displacements satisfy every restraint and balance the loads",
  "For every loaded and sufficiently restrained body the displacements returned satisfy each restraint exactly and leave no residual force in any unrestrained direction, whichever solver is used. A restrained body never fails to be solved, even when no degree of freedom is left.",
  ["inputs", "configurations"], "all restraint combinations on three- and four-node meshes, all load values, inclined supports at any angle",
  "tests solve fixed examples with one restraint pattern",
  ["src/element/mod.rs", "src/element/constraint.rs", "src/matrix/solve/direct.rs", "src/matrix/graph.rs"], "assembly, reduction, solve, expansion",
  "one triangle (all 125 restraint combinations) and two triangles (89 sampled combinations quick, all 625 thorough) with an arbitrary solver; the real solvers on fixed meshes and material with symbolic loads and angles; beyond that, fixed cases: renumbered strips and fans of up to 8 elements with drawn restraints, symbolic loads (elimination and an arbitrary solver); histories: one body analysed four times as loads and restraints, or elements and nodes, are added", harness=[U, F, "p18.rs"])

prop("P20", "Material law is Hooke's law and the strain operator is the strain of the field",
  "For every admissible material, the constitutive matrix of each condition is symmetric positive definite and is Hooke's law: strains follow from stresses by the textbook compliance. The strain operator maps nodal displacements to the strain components of the interpolated field, hoop strain included.",
  ["inputs"], "all materials with E > 0 and -1 < nu < 1/2, all gradients, displacements and positions",
  "tests use one material", ["src/element/strain.rs", "src/element/material.rs"], "closed-form constitutive and strain matrices",
  "none beyond the material ranges; radius > 0", harness=[U, F, "p20.rs"])
# ---------------------------------------------------------------- out of reach
prop("P27", "Quadrature rules are exact for every polynomial of their degree",
  "The rule of each order n from one to four integrates every polynomial of degree 2n-1 along any segment exactly, to the digits its constants are written with, whichever end it starts from and whatever the shape of the integrand. The triangle rule does so for every quadratic on the unit triangle, and an order that has no rule is refused.",
  ["inputs"], "all polynomials of the degree, all orders; all segments for linear integrands",
  "no test integrates anything; elements use one order only",
  ["src/element/integrate.rs"], "tables of abscissae and weights, mapping of the segment to [-1, 1]",
  "coefficients in [-1, 1], six segments of rational length for the full degree, end points in [-10, 10] for linear integrands; tolerance 1e-12", harness=[U, "p27.rs"])
na("P90", "The eigenvalue search converges for every stiffness and mass pair",
  "For every symmetric positive definite stiffness and mass pair, repeated and clustered eigenvalues included, the modal analysis terminates and returns as many pairs as were asked for.",
  ["inputs"], "all symmetric positive definite pairs", "tests run one small structure",
  ["src/matrix/solve/eigen.rs"], "bracketing by eigenvalue counts, then inverse iteration from a random start until a tolerance is met",
  "an iteration to a floating-point tolerance with a data-dependent, unbounded number of steps from a random start: no bounded unrolling over arbitrary pairs reaches the stopping test (its steps, its counting, and the search on pairs of known spectrum are claimed in P11 and P12)")
na("P91", "Mesh and boundary files read back as written",
  "Writing a boundary or mesh description and reading it back yields the same description, and malformed files are rejected with an error.",
  ["inputs"], "all descriptions and all byte strings", "tests parse a few files",
  ["src/file/bbnd.rs", "src/file/bmsh.rs", "src/file/mod.rs"], "nom parsers over text",
  "the parsers need the crate nom, which is not installed here, so this part of the tree does not compile and nothing can be executed symbolically or replayed")
na("P92", "Meshing yields a conforming triangulation within the quality bounds",
  "For every valid boundary the mesher terminates with triangles that cover the domain, overlap nowhere and meet the requested size and angle bounds.",
  ["inputs"], "all boundaries", "tests mesh a few shapes",
  ["src/mesher/mod.rs", "src/mesher/plane.rs", "src/mesher/bounds.rs"], "incremental Delaunay refinement",
  "the mesher needs the crate spacemath, which is not installed here, so it does not compile and cannot be executed or replayed; unbounded refinement loops would be out of reach in any case")
na("P93", "The command line runs the analysis asked for and writes the picture named",
  "For every command line and input file the program either reports an error or runs the requested analysis and writes the requested output.",
  ["inputs"], "all command lines and files", "no test runs the program",
  ["src/main.rs"], "argument handling and file input and output", "main.rs depends on the mesher and the file parsers, which do not compile here; operating-system input and output has no symbolic semantics in this engine")
prop("P19", "Stresses follow from displacements, and the von Mises value from the stresses",
  "For every displacement of the nodes, an element's stress at each node is Hooke's law applied to the strain of the interpolated field, the reported nodal stress is the mean over the elements that meet there, and nodes no element uses report none. The von Mises value is the non-negative yield criterion of the reported stress, and the stress tensor is symmetric with each component in its place. Reported displaced positions and displacement sizes are those of the displacements.",
  ["inputs", "configurations"], "all triangles, materials and nodal displacements; all subsets of four elements around a node",
  "tests look at one stress state and one mesh",
  ["src/element/stress.rs", "src/element/element.rs", "src/element/mod.rs", "src/element/strain.rs", "src/matrix/mod.rs"], "C B U at the nodes, running averages, closed-form criterion",
  "coordinates in [-100, 100], area at least 0.005, axisymmetric radius >= 1/8 (a node on the axis has an undefined hoop strain), and the same 4096 times smaller and larger; patches of up to four elements; stress components in [-1000, 1000] for the criterion; beyond that, fixed cases: renumbered strips and fans of up to 10 elements with arbitrary displacements, fixed material; histories: results asked for twice and of a copy; with machine rounding: three triangles at four places 10^6 from the origin", harness=[U, F, "p19.rs"])

prop("P08", "The iterative solver's answer satisfies K u = r to the tolerance",
  "Whenever the relaxed Gauss-Seidel solver returns, the residual of the returned vector is bounded by the tolerance times the size of the vector (with the constant its stopping test implies), for every load. It converges for symmetric positive definite systems, answers zero for an unloaded body, and refuses malformed systems.",
  ["inputs", "histories"], "all loads on the listed systems, all positive definite 2x2 systems for the first sweeps, all 1x1 systems",
  "one test solves one 4x4 system; whether the stopping test bounds the residual depends on the load and the number of sweeps",
  ["src/matrix/solve/iterative.rs", "src/matrix/norm.rs", "src/matrix/sparse.rs", "src/matrix/solve/mod.rs"], "over-relaxed sweeps over sparse rows until the relative change is small",
  "2x2 and 3x3 concrete positive definite matrices with symbolic load and every sweep unrolled until the stopping test holds on all paths (at most 200); round limits of 0, 1 and 3 and non-definite systems, which must be refused, with symbolic load; fully symbolic 1x1; fully symbolic 2x2 for two sweeps")
prop("P11", "The eigenvalue count below a shift is exact",
  "For every symmetric stiffness and mass pair and every shift at which no leading block is singular, the number of eigenvalues reported below the shift is exactly the number of negative eigenvalues of the shifted matrix, whatever the sparsity and the numbering. Mass may couple unknowns that stiffness leaves uncoupled.",
  ["inputs", "configurations"], "all symmetric pairs up to 3 unknowns with every sparsity pattern, all shifts; every sparsity pattern of 4 unknowns",
  "one test counts at two shifts of one matrix; the count is what keeps modal analysis from skipping modes",
  ["src/matrix/solve/eigen.rs", "src/matrix/solve/direct.rs", "src/matrix/sparse.rs", "src/matrix/solve/mod.rs"], "sign count of the diagonal of an envelope LDL' factorisation of K - l M",
  "n <= 3 fully symbolic (all 8 patterns, diagonal or full mass); n = 4 with known spectrum, or every one of the 64 coupling patterns with fixed values, and n = 5 with sampled patterns (12 quick, 200 thorough), all with symbolic shift; shifts that make a leading block exactly singular are excluded (the factorisation has no pivoting); beyond that, fixed cases: block spectra of 6 to 8 unknowns with symbolic shift")
prop("P12", "Modal analysis is exact for one unknown and keeps modes complete and in order",
  "For every body with a single free direction the reported frequency squared is its stiffness over its mass and the mode shape has unit modal mass and keeps the restraints. With more unknowns the pairs found satisfy the eigenvalue equation to the iteration's tolerance, in ascending order and without a skipped eigenvalue, in the caller's numbering. Deflation, range splitting, inverse iteration and the Rayleigh quotient are exact steps.",
  ["inputs", "configurations"], "all materials and thicknesses for one unknown; any absolute scale of stiffness and mass for several; arbitrary vectors and matrices for the steps",
  "one test checks the eigenvalues of one 4x4 matrix",
  ["src/matrix/solve/eigen.rs", "src/element/mod.rs", "src/matrix/solve/direct.rs"], "bracketing by eigenvalue counts, inverse iteration, M-orthogonal deflation",
  "end to end: one triangle with one free direction; fixed 2-, 3- and 4-unknown pairs with symbolic scale of K and M and the search's own start vector; steps on n <= 3 with symbolic values; beyond that, fixed cases: diagonal pairs of 5 and 7 unknowns; histories: a second search of the same system, modes asked for before the body is complete", note="Convergence of the search for arbitrary pairs is not claimed (P90).", harness=[U, F, "p12.rs"])

prop("P09", "Renumbering is reversible and moves every value with its unknown",
  "A renumbering is accepted exactly when it is one-to-one and onto, and its two directions undo each other, before and after inversion. Applied to a vector or a sparse matrix it moves every value to its unknown's new number and loses none, so products commute with renumbering and renumbering back restores the original.",
  ["inputs", "configurations"], "all permutations and all improper lists up to the bounds, all vector and matrix values",
  "tests use fixed permutations, most of them their own inverse, which cannot tell the two directions apart",
  ["src/matrix/graph.rs", "src/matrix/sparse.rs"], "forward and backward index tables",
  "up to 5 unknowns (6 thorough); matrices of 2 and 3 unknowns; values arbitrary reals; beyond that, fixed cases: drawn orders of 7 to 14 unknowns with arbitrary values")
prop("P10", "The bandwidth-reducing numbering is a complete level order of any graph",
  "For every undirected graph, disconnected ones and isolated vertices included, the graph built from edges in either direction, repeated or looping, has exactly those neighbours, and distances found in it are the true ones. The bandwidth-reducing numbering gives every vertex one number, numbers each component in one run starting at a peripheral vertex, visits neighbours in the order of the vertices that reach them, and numbers a chain end to end.",
  ["inputs", "configurations"], "all graphs up to the bounds, all edge lists of up to three edges, all masks",
  "tests look at one connected graph",
  ["src/matrix/graph.rs"], "compressed adjacency lists, breadth-first levels, pseudo-peripheral root, Cuthill-McKee order reversed",
  "every graph of up to 5 vertices (6 thorough) as symbolic edge flags decided by path splitting (the structure is discrete: no arithmetic goal remains); lists of up to 3 edges on 4 vertices; chains of up to 5 (6); beyond that, fixed cases: 24 drawn graphs of 9 to 15 vertices with four optional edges each")
prop("P21", "Geometric predicates decide position exactly for every triangle and point",
  "Barycentric weights sum to one and give the point back, and a point is reported in a triangle of either orientation exactly when it is a convex combination of its corners. The circumcentre is equally far from all three corners and is missing exactly for collinear ones. A point is reported in the circumcircle or circumsphere of a positively oriented triangle or tetrahedron exactly when it lies strictly inside, and orientation is the sign of the volume.",
  ["inputs"], "all triangles and points for the plane predicates; one corner or the point anywhere for the circle, sphere and orientation tests",
  "tests try one or two points; wrong signs, swapped coordinates or a dropped axis need particular positions",
  ["src/spatial/predicates.rs", "src/matrix/inverse.rs", "src/spatial/mod.rs"], "closed forms and determinants by elimination with pivoting",
  "exact reals; circle: six triangles (one corner or the point free in [-100, 100]); sphere and orientation: four tetrahedra (the point or one corner free); results within 1e-6 of degenerate are judged only when exactly degenerate")
prop("P22", "Points are vectors of their dimension and never mix dimensions",
  "For all coordinates, sums, differences, multiples, midpoints, scalar products, lengths, directions and distances of points are the Euclidean ones in one, two and three dimensions, and writing a coordinate changes nothing else. Conversions to and from numbers, tuples and lists keep the dimension and every coordinate, and fail for any other dimension. Combining points of different dimension or touching a coordinate that does not exist is refused.",
  ["inputs"], "all coordinates and factors, all pairs of dimensions",
  "tests use a handful of points, mostly two-dimensional with non-negative coordinates",
  ["src/spatial/mod.rs"], "fixed array of three with a dimension count",
  "dimensions one to three, coordinates arbitrary reals (overflow of squares is outside exact arithmetic)")
prop("P23", "Pictures show every node where it is, to one scale, centred and upright",
  "For every set of points in one, two or three dimensions, coincident points included, the picture has the size asked for, every dot lies inside it, and each node's dot is within half a pixel of the node's position under one common scale, with the longer extent over 80 % of the picture, the middle of the bodies in the middle and the y axis upwards. Bodies in space are shown by one fixed parallel projection.",
  ["inputs"], "all positions of one or two points, among fixed others; all picture sizes listed",
  "tests write pictures to disk and look at none of them",
  ["src/visual/mod.rs", "src/visual/fill.rs", "src/visual/color.rs"], "bounding box, uniform scaling, rounding to pixels, square dots",
  "coordinates in [-50, 50]; up to five points, of which one or two (three on a line) move; picture size 16, with one moving point also 17, 24, 33 and 64 (below 16 pixels dots do not fit, a limitation the source notes); pixels compared within 1e-9; beyond that, fixed cases: clouds of 6 to 10 points with one on a track, 32 pixels; histories: a picture drawn again, at other sizes, as points are added", harness=[U, "pix.rs", "p23.rs"])

prop("P25", "Colour maps give the nearest colour of their ramp for every value",
  "For every value each channel of the hot map and of the rainbow map is the 8-bit level nearest to the ideal ramp. The hot map is constant outside the unit interval, on it a larger value is never darker and nearby values never jump.",
  ["inputs"], "all real values", "no test looks at a colour",
  ["src/visual/color.rs"], "piecewise linear ramps, clamping, rounding to bytes",
  "none on the value (the unit interval is taken in 24 parts, plus everything below and above); order is judged for values less than 0.002 apart; ties and 1e-9 of a level either way")
prop("P26", "Filled triangles show the values interpolated between their nodes",
  "For every assignment of values to nodes, every pixel of a displayed triangle, whichever way its nodes are listed, is filled with the colour of the value interpolated linearly between its nodes, on the scale from the smallest value to the largest, and nothing outside the triangles is filled. The value shown never leaves that scale, not even for equal values or triangles seen edge-on. The mesh is drawn over the fill, and only when asked for.",
  ["inputs"], "all node values on fixed meshes, all positions of one node with fixed values",
  "tests draw no filled triangle at all",
  ["src/visual/mod.rs", "src/visual/fill.rs", "src/spatial/predicates.rs"], "normalisation, barycentric weights over a pixel box",
  "16-pixel pictures; meshes of one or two triangles on three quadrilaterals, both orientations; one triangle with a free corner; beyond that, fixed cases: renumbered strips and fans of up to 10 elements with two values free, 24 pixels; histories: values, then triangles, replaced before drawing again", harness=[U, F, "pix.rs", "p26.rs"])

prop("P24", "Meshes are drawn as one unbroken straight line per side of an element",
  "For every mesh the sides shown are those of its elements, each once however many elements share it and from whichever end they name it, and its triangles are the elements. A side is drawn, from wherever to wherever, as a connected line with one pixel per step, none further than half a pixel from the straight line between where its nodes are shown, and nothing is drawn elsewhere. A deformed body is shown at its displaced nodes.",
  ["inputs", "configurations"], "all positions of one end of a line, all element subsets and listings of a mesh, all displacements of one node",
  "tests write pictures to disk and look at none of them",
  ["src/visual/mod.rs", "src/visual/bresenham.rs", "src/element/mod.rs"], "integer line stepping, duplicate removal by sorting",
  "pictures of 16 pixels with one free end and five starts, of 64 pixels along four tracks; a mesh of up to four elements; beyond that, fixed cases: renumbered strips and fans of up to 10 elements, one node on a track, 32 pixels", harness=[U, F, "pix.rs", "p24.rs"])
prop("P28", "A system of equations reaches the solver as it was put together",
  "Whatever order coefficients and right hand sides are given in, one by one or as whole matrices, the system handed to a solver holds at each place the sum of what was given there. The renumbering that narrows the envelope moves the stiffness, the mass and the right hand side alike, keeps room in the stiffness for every coupling of the mass, and comes with the permutation that brings an answer back to the original unknowns. Incomplete or ill-shaped systems, and a second renumbering, are refused.",
  ["inputs", "histories", "configurations"], "all values, all places of the additions, all coupling patterns of small systems",
  "tests solve two fixed systems that are already in a good order",
  ["src/matrix/solve/mod.rs", "src/matrix/graph.rs", "src/matrix/sparse.rs"], "lazily created matrices, permutation stored with the system and inverted on the way out",
  "four additions to systems of 1 to 3 unknowns; every coupling pattern of up to 4 unknowns with four mass patterns each; beyond that, fixed cases: 12 drawn patterns of 6 to 11 unknowns (60 thorough); values arbitrary reals")

prop("P29", "A body reads back as it was described",
  "Nodes, elements, sides, node and edge loads, restraints, material and condition of a body are read back exactly as they were given, each once and under the ids handed out, whatever was added before or after and whether or not an analysis has been run. The names written for restraints, materials and conditions are understood when read back and give the same restraint, material or condition, the thickness to the five decimals written. Unknown names are refused.",
  ["inputs", "histories"], "all coordinates, loads, angles, materials and thicknesses, all short orders of description",
  "no test reads a body's loads, restraints or names back",
  ["src/element/mod.rs", "src/element/constraint.rs", "src/element/material.rs", "src/element/strain.rs"], "vectors indexed by node, maps from nodes and edges to loads, text names",
  "three additions of any of five kinds to a triangle (fixed when axisymmetric; 5 hash orders for each condition); 12 drawn bodies of 4 to 9 elements (60 thorough); a number written with all digits reads back exactly (standard library), with d decimals to within half a unit of the last", harness=[U, F, "p29.rs"])
