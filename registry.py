"""Which harnesses decide which property, and within which bounds."""
REGISTRY = {}

REGISTRY["C01"] = dict(
    harnesses=[dict(name="c01", src="c01.cpp")],
    bounds=dict(
        quick="degree 1..5 x 0..3 interior knots (degree+2*knots<=7, or <=1 knot) x all multiplicities 1..degree+1 x 3 spacings x {every knot, its double neighbours, 3 interior parameters per span, ends} x orders 0..degree+2 x {all unit pole vectors, generic 2D/3D, rational 2D/3D, float}; degrees 6..25 on 5 knot vectors with orders up to 24",
        thorough="as quick with degree 1..7 and degree+2*knots<=10"),
    assumptions=["double tolerance 1e-9 relative to the sum of absolute basis contributions (float 2e-3)", "clamped knot vectors"],
    technique="bounded exhaustive enumeration of the real evaluators against a textbook reference model",
    level_note="Every knot vector, parameter and order in the bound is evaluated by the real code under AddressSanitizer and compared with an independent long double Cox-de Boor model; unit pole vectors make the result hold for all poles by linearity. Trusts the reference model and the stated tolerance.")

REGISTRY["C03"] = dict(
    harnesses=[dict(name="c03", src="c03.cpp")],
    bounds=dict(
        quick="all sequences of 35..60 state dependent operations (insert, insert-up-to, remove, elevate, reverse, trim, soft trim, change bounds, incl. impossible arguments and arguments one rounding error off a knot): depth 3 from 4 curves and every knot pattern of degree<=3 with <=1 interior knot, depth 2 from every pattern of degree<=5 with <=2 interior knots (multiplicity<=degree), polynomial and rational; elevation p+t<=16",
        thorough="depth 4 from 4 curves, depth 3 from every pattern"),
    assumptions=["states with equal degree, knots, poles (1e-6), bounds and redundancy have the same futures", "states of degree>8 or >40 poles are checked but not expanded", "continuous curves (interior multiplicity <= degree)"],
    technique="explicit-state breadth-first search over edit histories executed on the real code, in lock-step with a reference model",
    level_note="Every history in the bound is executed by the real code under AddressSanitizer and compared after each step with the model (exact knots, degree, bounds, point set). Trusts the reference model and tolerance 1e-7.")

REGISTRY["C02"] = dict(
    harnesses=[dict(name="c02", src="c02.cpp")],
    bounds=dict(
        quick="degrees 1..3 x 1..3, 0..2 interior knots in all (m_u+m_v<=2), all multiplicities 1..degree+1, up to 3 spacings, every pair of {knots, double neighbours, interior parameters, ends}, all mixed orders up to degree+1 (<=3), polynomial 3D, rational 2D/3D, scalar functions, all unit pole nets for <=1 interior knot; isos at every probe; degrees up to 24x24 on one interior knot per direction",
        thorough="degrees 1..4, m_u+m_v<=3, all spacings, unit pole nets for <=2 interior knots"),
    assumptions=["double tolerance 1e-9 relative to the sum of absolute basis contributions", "clamped knot vectors", "isos only across continuous directions"],
    technique="bounded exhaustive enumeration of the real evaluators against a textbook reference model",
    level_note="Every surface, parameter pair and order in the bound is evaluated by the real code under AddressSanitizer and compared with an independent long double tensor-product model. Trusts the reference model and the stated tolerance.")

REGISTRY["C04"] = dict(
    harnesses=[dict(name="c04", src="c04.cpp")],
    bounds=dict(
        quick="all sequences of 40..50 state dependent operations (insert, elevate, reverse, trim, change bounds in U and V, exchange of directions, incl. impossible arguments): depth 3 from 2 surfaces, depth 2 from every knot pattern of degrees 1..3 x 1..3 with <=1 interior knot per direction, polynomial and rational; depth 1 at degrees 4,5",
        thorough="depth 3 from 4 surfaces and every pattern of total degree <=4, depth 2 at degrees 4,5"),
    assumptions=["states with equal degrees, knots and poles (1e-6) have the same futures", "states of degree>6 or >150 poles are checked but not expanded", "continuous surfaces (interior multiplicity <= degree)"],
    technique="explicit-state breadth-first search over edit histories executed on the real code, in lock-step with a reference model",
    level_note="Every history in the bound is executed by the real code under AddressSanitizer and compared after each step with the model (exact knots, degrees, bounds, point set). Trusts the reference model and tolerance 1e-7.")

REGISTRY["C05"] = dict(
    harnesses=[dict(name="c05", src="c05.cpp")],
    bounds=dict(
        quick="every knot sequence over 3 values of length 0..7 (sorted or not) and every sorted multiplicity vector up to 11 knots x degree {0..3, 2^64-1, 2^64-2} x 0..7 poles x 0..poles+1 weights x every constructor form (flat, multiplicities, zero and mismatched multiplicities, rational, scalar function); surfaces: every pair of 38 knot vectors x degree pairs {0..2,2^64-1}x{0..3,2^64-1} x 0..10 poles x every constructor form",
        thorough="as quick with knot sequences of length 0..8"),
    assumptions=["finite knots, differences either 0 or above the knot tolerance"],
    technique="bounded exhaustive enumeration of constructor inputs on the real code against a consistency model",
    level_note="Every input of the bound goes through the real constructors under AddressSanitizer and the accept/reject decision, reported data and bounds are compared with the model.")

REGISTRY["C06"] = dict(
    harnesses=[dict(name="c06", src="c06.cpp")],
    bounds=dict(
        quick="points: degree 1..6, 2..10 points plus 11 sizes across the solver thresholds, 3 parametrization modes and 3 explicit spacings, all unit data; Hermite 1..4 constraints per point on 2..6 (30,70,140) points; mixed bound/derivative constraints: every ordered selection of <=4 among 10 constraint kinds x degree 1..5; general constraint solver and column solver over sizes 2..130 and 3 row orders; point grids 2..5 x 2..5 x degrees x modes; scattered surface constraints 2..6 x 2..5 poles x degrees x multiplicities x bounds x orders",
        thorough="degree 1..8 with up to 14 points, selections of <=5 constraints, larger grids"),
    assumptions=["problems whose collocation matrix (computed by the reference model) has condition number above 1e8 are explored but not judged", "residual tolerance 1e-9 relative to the sum of absolute contributions"],
    technique="bounded exhaustive enumeration of interpolation problems on the real code against a reference evaluator",
    level_note="Every configuration of the bound is solved by the real code under AddressSanitizer and each constraint re-evaluated with an independent model; unit data make it hold for all data by linearity.")

REGISTRY["C07"] = dict(
    harnesses=[dict(name="c07", src="c07.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="degree 1..5 x every data size up to 11 (and 20,40,99,100,101,140 across the sparse threshold) x pole counts p+1..p+7, n/2, n-1, n x 4 parameter sets x free/imposed ends x 3 parametrization modes, all unit data for <=8 points; all multiplicities 1..p+1 of <=2 interior knots, degree<=3; every (points<=8, degree<=5, poles<=10) size triple; refinement: degree 1..4 x 4 data shapes x 13 sizes x 4 parameter sets x start pole counts x 3 tolerances; surfaces: degrees 1..3 x 1..3, <=3 interior knots, grids and constraint lists with derivatives; batches of 0..20; all curve-fitting overloads on 54 curves",
        thorough="degree 1..7, sizes up to 16, 3 interior knots with degree<=5, 3D refinement, degree 5"),
    assumptions=["problems whose normal matrix has condition number above 1e10 (reference model) are explored but not judged for optimality", "gradient tolerance 1e-10 relative"],
    technique="bounded exhaustive enumeration of approximation problems on the real code against an optimality-condition oracle",
    level_note="Every configuration is solved by the real code under AddressSanitizer; optimality is decided by the first order condition computed with an independent long double basis, unit data make it hold for all data by linearity.")

REGISTRY["C08"] = dict(
    harnesses=[dict(name="c08", src="c08.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="degree 1..3, 0..2 interior knots, all multiplicities 1..degree, 2 spacings/bounds: every ordered pair joined and unified (polynomial, rational, mixed, by value and by pointer), every ordered triple of the <=1-interior-knot patterns chained in both groupings and unified; every ordered pair of degree<=4 patterns connected (C2, C3, Cn for n<=4 and every admissible degree, shaped, both sides); every pattern of degree<=5 extended at both ends to 3 targets / by 3 lengths x natural end x every continuity limit",
        thorough="degree<=4 (join/unify) with 3 spacings, degree<=5 (connect), 2 interior knots (extend)"),
    assumptions=["continuous curves (interior multiplicity <= degree)", "connection degree at least order+1", "tolerances 1e-8 (shape), 1e-6 (derivatives)"],
    technique="bounded exhaustive enumeration of curve combinations on the real code against the originals",
    level_note="Every combination of the bound is built by the real code under AddressSanitizer and compared with the source curves at knots and 13 parameters per part, knots and multiplicities exactly with the union model.")

REGISTRY["C09"] = dict(
    harnesses=[dict(name="c09", src="c09.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every assignment of knot patterns (degree<=3, <=1 interior knot, 2 spacings) to 2 sections, of degree<=2 patterns to 3 sections, rotating assignments for 4..8 sections, sections with a common pole; q 1..4, 3 given v sets and the chord law, every overload, straight and bent spine, polynomial 2D/3D and rational; Gordon networks of 2..4 x 2..4 curves with degrees 1..3, 3 station sets, 3 curve shapes, and every single curve lifted; split/join at knots and span interiors, extension at 4 sides x lengths x natural x continuity, to a curve, for every pair of patterns of degree<=3 with <=1 interior knot, polynomial and rational; knot unification of every pair of degree<=2 patterns per direction",
        thorough="degree<=4 surfaces, every assignment of degree<=3 patterns to 3 sections and degree<=2 to 4, 4..12 sections, networks up to 5x5 with all shapes"),
    assumptions=["tolerance 1e-8 relative (loft, tools), 2e-5 (Gordon: intersections are found iteratively)", "spine lofts whose collocation matrix is near singular are explored but not judged", "network curves of degree >= 2 with small undulation must be accepted; others may be refused"],
    technique="bounded exhaustive enumeration of construction problems on the real code, containment of every generating curve as oracle",
    level_note="Every configuration of the bound is built by the real code under AddressSanitizer and compared with the generating curves or the original surface at knots and a fixed grid of parameters.")

REGISTRY["C10"] = dict(
    harnesses=[dict(name="c10", src="c10.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every chain of <=3 adaptors among {trim, reverse, extend linearly, extend clamped, 2 re-parametrizations, composites of 1..3 parts} over every polynomial 2D and rational 3D curve of degree<=3 with <=1 interior knot (2 spacings), orders 0..3, incl. parameters outside and one rounding error outside the bounds; curves on polynomial/rational surfaces of degree<=2 in every pattern; 2D offsets and 3D offsets along 4 directions x 3 offset laws x 2 signs x every pattern of degree 2..3; surface offset points; lines and circles over 52 directions; revolution about 18 axes x 3 locations x every profile, orders (0..2)x(0..4); sharing of the base geometry",
        thorough="chains of 4 adaptors, degree<=4"),
    assumptions=["parameters away from derivative jumps, except at ends", "derivative orders the class announces as implemented", "tolerance 1e-8"],
    technique="bounded exhaustive enumeration of adaptor compositions on the real code against reference combinators",
    level_note="Every composition in the bound is built and evaluated by the real code under AddressSanitizer and compared with independent long double combinators (chain rule written out).")

REGISTRY["C11"] = dict(
    harnesses=[dict(name="c11", src="c11.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every polynomial 2D and rational 3D curve of degree 1..3 with <=1 interior knot of every multiplicity (2 spacings), reversed and trimmed variants, circle, closed curves with kinks: length over every pair of 9 bounds (additivity, both directions, parameter derivatives), arc-length laws and their inverses for every sub-range x sample count x degree, adaptive refinement for n in {2,3,5} x 6 tolerances, uniform and deviation discretizations for n in {0,1,2,3,4,5,9,16,40} on 3 ranges; iso-curve discretization of 72 surfaces",
        thorough="degree<=4, 3 spacings, more curve kinds"),
    assumptions=["length laws between their nodes are judged on gentle curves only (they are interpolations)", "kinks: 2e-5 relative with the coarse quadrature"],
    technique="bounded exhaustive enumeration of curves, ranges and counts on the real code against an independent piecewise quadrature",
    level_note="Every curve, range and count of the bound is measured and discretized by the real code under AddressSanitizer and compared with long double Gauss integration by smooth pieces.")

REGISTRY["C12"] = dict(
    harnesses=[dict(name="c12", src="c12.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="polynomial and rational curves of degree 1..3 with <=1 interior knot (all multiplicities, 2 spacings, 3 shapes): projection of 9+ points per curve and of displaced points (every axis direction x 3 distances) with the default search and from 3 guesses; curve/curve search for curves translated so that they cross transversally at every chosen parameter pair, from the default guess and 4 neighbouring guesses; surface/point and surface/curve on 48 surfaces; line/line over 12x12 directions x 6 places; closest curve among 5; deviation statistics; solve_coordinate for every coordinate; gradient based solver on separated objects; 729 wavy curves of degree 1..3 with several valleys (single crossing with an axis in both orders, 41 points each)",
        thorough="degree<=4, 3 spacings, every curve, denser pairing"),
    assumptions=["transversal crossings (angle cosine < 0.9)", "contacts at kinks within 0.03, elsewhere 1e-3", "global optimum only within what the documented bracketing can find", "the squared distance that is reported is a recorded finding"],
    technique="bounded exhaustive enumeration of query/target configurations on the real code with constructed ground truth",
    level_note="Every configuration of the bound has a known answer by construction; the real search is run on it under AddressSanitizer.")

REGISTRY["C13"] = dict(
    harnesses=[dict(name="c13", src="c13.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every sequence up to depth 3 (points 3, degree<=2 curves and p*q<=2 surfaces 3, otherwise 2) of 15+ operations (translate, rotate, scale uniform/per coordinate, matrices, changes of frame; in-place and copying variants, poles, curves, surfaces) on polynomial and rational 2D/3D curves of degree 1..4 and surfaces of degree 1..3 x 1..3, every pair among 8 frames x 6 origins for changes of reference, dimension changes",
        thorough="depth 4 for degree<=2 curves and points, 3 otherwise, 3 spacings, degree 1..4 x 1..4"),
    assumptions=["tolerance 1e-9 relative to the coordinates reached", "no degenerate frame (parallel axes)"],
    technique="exhaustive enumeration of operation sequences executed on the real code in lock-step with a reference affine model",
    level_note="Every sequence in the bound is executed by the real code under AddressSanitizer; after each step points, derivatives, weights, knots and untouched sources are compared with an independent affine model applied to the evaluated original.")

REGISTRY["C14"] = dict(
    harnesses=[dict(name="c14s", src="c14.cpp", cxx=["-DC14_SCHED", "-I$VERIF/lib/shadow"], libs=["-ltbb", "-lnlopt"]),
               dict(name="c14p", src="c14.cpp", libs=["-ltbb", "-lnlopt"]),
               dict(name="c14r", src="c14r.cpp", mode="race", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="controlled scheduler: 103 bulk operations (curve and surface evaluation of 7 classes, transforms, batch interpolation/approximation, generic batches, extrema, arc length, lofts, mesh area) x 0..5 items (0..4 for the costly ones) x every subset of failing items x 3 thresholds x every chunking and every order of the chunks of one parallel region; real thread pool: the same at 19 sizes around the thresholds x failing patterns; access sets of every ordered pair of 5..29 read-only operations on 10 classes, and of 15 builders on their own data",
        thorough="0..6 items, 25 sizes up to 5000, 3 repetitions"),
    assumptions=["memory operations inside precompiled libraries (TBB, NLopt, libc) are not recorded", "when a run has several parallel regions one at a time is explored fully"],
    technique="stateless exploration of the real code under a controlled scheduler (every chunking and order), plus independence check (DPOR) of the complete recorded access sets of every pair of operations",
    level_note="The parallel algorithms run through a replacement of TBB's parallel_for/parallel_reduce whose chunks and order the explorer enumerates, results and errors compared bit for bit with one by one execution; a recorded conflict between two operations is a race, none means a single equivalence class of interleavings.")

REGISTRY["C15"] = dict(
    harnesses=[dict(name="c15", src="c15.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every sequence of edits up to depth 3 (4 from a single triangle) from 5 initial meshes (triangle, two triangles, fan, strip, grid), in the plane and in space: add_face (edge + point, edge + edge), flip of every interior edge, add_vertex in every face and loop, splitHalfEdge of every edge, boyerWatson insertion at 10 points (inside, on edges, on vertices, outside), removal of every face and of the faces around every vertex, inner/outer face extraction by loops, smoothing of every vertex",
        thorough="one edit deeper"),
    assumptions=["repairVertexEdges is called after edits documented to need it (insertion, removals)", "edits are given faces and edges of the mesh"],
    technique="exhaustive enumeration of edit sequences executed on the real half-edge structure in lock-step with a model (set of oriented vertex triples)",
    level_note="All histories of the bound are executed by the real code under AddressSanitizer; after each edit the complete structure (loops, opposites, vertex links, every query) is compared with the model, equal model states being explored once per history length.")

REGISTRY["C18"] = dict(
    harnesses=[dict(name="c18", src="c18.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="orientation: 64x64 and 3^6/5^6 neighbourhoods of adjacent floating point numbers around 8 nearly collinear triples (double and float), all 6-tuples of 10 awkward values; all 4-tuples of points of a 6x6 grid x 3 dyadic placements for the triangle, circle, segment and half-line predicates and the circle constructions; point in polygon for every simple polygon with 3..8 vertices on a 3x3 grid and 3..6 on a 4x4 grid x every half-integer query point x every start and direction; all pairs of triangles of a 4x4 grid; boxes",
        thorough="8x8 grid, 9 and 7 vertices, 14 awkward values"),
    assumptions=["products of coordinates neither overflow nor underflow", "predicates with a documented tolerance are explored at sizes >= 1e-2", "sphere_center (not used anywhere) is not claimed"],
    technique="bounded exhaustive enumeration of configurations on the real predicates against exact integer / expansion arithmetic",
    level_note="Every configuration of the bound is decided by the real predicate and by exact arithmetic; degenerate configurations are all included.")

REGISTRY["C20"] = dict(
    harnesses=[dict(name="c20", src="c20.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every entity kind that can be written (polynomial, rational, on-surface, scalar function, trimmed, composite, offset, line, surfaces, revolution) x dimension 1..3 x degree 1..4 x knot patterns with <=2 interior knots (surfaces: degree <=3, <=1 knot) x sets of extreme coordinates, double and float, alone and nested, through memory and files; definitions by points and constraints; every single-member mutation (missing, and 9 replacement values) of every document, every truncation of the files",
        thorough="degree<=6, 3 interior knots"),
    assumptions=["member values replaced by another valid value are not malformed", "kinds that have a writer but no reader are checked part by part", "rational poles: a few rounding errors"],
    technique="bounded exhaustive enumeration of entities and of document mutations through the real writer and reader",
    level_note="Every entity of the bound is written and read back by the real code under AddressSanitizer and compared bit for bit; every mutated document must be reported.")

REGISTRY["C22"] = dict(
    harnesses=[dict(name="c22", src="c22.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="every sequence of addEdge up to depth 2 over edges between 4 corners whose ends are the shared vertex, an equal point, a point at 0.6 or 1.7 tolerance; depth 3 with 3 kinds of ends on 3 corners; depth 4 with shared or equal ends; straight and curved edges, plane and space; every insertion order of the edges of polygons of 3..6 sides; closed circle edges; trimming of edges by vertices; tight and loose tolerances; close()",
        thorough="one more edge in each family"),
    assumptions=["edges run in the direction of the wire (reversed edges are refused by design)"],
    technique="exhaustive enumeration of edge insertion histories on the real code in lock-step with a reference chain",
    level_note="All insertion histories of the bound are executed by the real code under AddressSanitizer and compared with a reference chain after each insertion.")

REGISTRY["C23"] = dict(
    harnesses=[dict(name="c23", src="c23.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="curves of dimension 1..3, degree 1..4, <=2 interior knots of every multiplicity: every set of 0..2 constraints (value, 1st, 2nd derivative at 4 places per span, knots and ends; 3 kinds of targets), half of the triples, and as many points as poles, ends free or fixed, through every overload; surfaces of dimension 2..3, degree 1..3 x 1..3, <=1 interior knot per direction: every single constraint (orders 0..2 x 0..2 at 9..25 places) and a third of the pairs, contour free or fixed",
        thorough="degree<=5, all triples of curve constraints, all pairs of surface constraints"),
    assumptions=["nearly dependent constraint sets are explored but not judged", "tolerance 1e-9 relative"],
    technique="bounded exhaustive enumeration of deformation problems on the real code against a long double least norm solution",
    level_note="Every problem of the bound is solved by the real code under AddressSanitizer; targets, fixed poles and the minimal displacement are compared with an independent Gram-Schmidt solution.")

REGISTRY["C24"] = dict(
    harnesses=[dict(name="c24", src="c24.cpp", libs=["-ltbb", "-lnlopt"])],
    bounds=dict(
        quick="derivative and integral curves for every pattern of degree 1..5 with <=2 interior knots of every multiplicity (3 spacings), dimension 1..3, several integration constants, and their compositions; segments between every pair of 5^dim places in both parametrizations; ellipses and circles over sizes and centers; Bezier segments of every pattern and degree increase; three point tangents; ranges",
        thorough="degree<=7, 3 interior knots"),
    assumptions=["tolerance 1e-9 relative", "a segment may end one rounding error beside its end point"],
    technique="bounded exhaustive enumeration of builder inputs on the real code against long double reference formulas",
    level_note="Every input of the bound is built by the real code under AddressSanitizer and compared with the analytic shape or the reference spline.")
