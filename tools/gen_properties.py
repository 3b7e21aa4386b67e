#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script only so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "Curve evaluation equals the mathematical (rational) B-spline and derivatives",
 "For every valid B-spline or NURBS curve (any degree, clamped knot vector with any admissible interior multiplicities, poles, positive weights) and every parameter inside its bounds, the value and every derivative returned equal those of the mathematical piecewise (rational) polynomial, including exactly at knots and at both ends, and derivatives above the polynomial degree are zero. Begin/end, first-, second-derivative and multi-parameter evaluations agree with single evaluations. Scalar spline functions behave the same way, and a parameter outside the bounds is reported as an error instead of being evaluated.",
 ["inputs"], "All degrees, knot multiplicity patterns, parameters (knots, neighbours, ends, interior) and derivative orders within the bound; by linearity in the poles, every basis vector.",
 "Tests evaluate a handful of cubic/quadratic curves at a few parameters; span selection at multiple knots, high orders and high degrees are never sampled.",
 ["gbs/bscurve.h", "gbs/basisfunctions.ixx", "gbs/knotsfunctions.ixx", "gbs/math.ixx"],
 [("basis function evaluation and span search", "gbs/basisfunctions.ixx"), ("curve classes' value/values/begin/end", "gbs/bscurve.h")],
 ["BSCurve::value", "BSCurveRational::value", "BSCfunction::value", "Curve::values"])

prop("C02", "Surface evaluation equals the mathematical tensor-product (rational) B-spline",
 "For every valid B-spline or NURBS surface and every parameter pair inside its bounds, the point and every mixed partial derivative returned equal those of the mathematical tensor-product (rational) polynomial, including on knot lines, edges and corners. Extracted iso-parametric curves and multi-parameter evaluations agree with the surface. A parameter pair outside the bounds is reported as an error.",
 ["inputs"], "All degree pairs, knot multiplicity patterns in both directions, parameter pairs, derivative order pairs within the bound, and all unit pole vectors.",
 "Tests use a few surfaces, mostly equal degrees and simple knots, where swapping directions or mixing spans is invisible.",
 ["gbs/bssurf.h", "gbs/basisfunctions.ixx"],
 [("tensor-product evaluation and rational quotient rule", "gbs/basisfunctions.ixx"), ("isoU/isoV, values", "gbs/bssurf.h")],
 ["BSSurface::value", "BSSurfaceRational::value", "isoU/isoV", "values"])

prop("C03", "Curve edits preserve the shape through every sequence of operations",
 "Starting from any valid, continuous B-spline or NURBS curve, after any sequence of knot insertion, removal of previously inserted knots, degree elevation, reversal, trimming and bound changes, the curve is still valid (knot count = poles + degree + 1, sorted knots, admissible multiplicities) and traces exactly the original point set under the parametrization each operation announces. Operations whose argument makes them impossible or pointless leave the curve unchanged or report an error, never a corrupted curve.",
 ["histories", "inputs"], "Every operation sequence up to the depth bound, over small argument domains (existing knots, mid-span, ends), from several initial curves.",
 "Tests apply single operations to one or two curves; state dependent bugs (inserting at an already multiple knot, trimming after elevation, reversing non-unit bounds) need a history.",
 ["gbs/bscurve.h", "gbs/knotsfunctions.ixx", "gbs/bsctools.h", "gbs/polestools.h"],
 [("knot insertion/removal/refinement", "gbs/knotsfunctions.ixx"), ("degree elevation by Bezier decomposition", "gbs/knotsfunctions.ixx"), ("mutators", "gbs/bscurve.h")],
 ["BSCurve/BSCurveRational mutators and accessors"])

prop("C04", "Surface edits preserve the shape through every sequence of operations",
 "Starting from any valid, continuous B-spline or NURBS surface, after any sequence of knot insertion in either direction, degree elevation, reversal, exchange of directions, bound changes and trimming (whatever the order of the limits), the surface is still valid in both directions and traces exactly the original surface under the parametrization each operation announces.",
 ["histories", "inputs"], "Every operation sequence up to the depth bound over small argument domains, from initial surfaces with different degrees and pole counts in the two directions.",
 "Tests apply one operation to one surface; row/column mix-ups with unequal directions and interactions of operations are not sampled.",
 ["gbs/bssurf.h", "gbs/knotsfunctions.ixx", "gbs/bsstools.h"],
 [("insertKnots/increaseDegree/reverse/invertUV/trim", "gbs/bssurf.h")],
 ["BSSurface/BSSurfaceRational mutators and accessors"])

prop("C05", "Inconsistent construction data is rejected, consistent data is accepted",
 "Constructing a B-spline or NURBS curve, scalar spline function or surface from poles, knots and degrees succeeds exactly when the data is consistent (knot count = pole count + degree + 1 per direction, at least degree + 1 poles, knots sorted, as many weights as poles, as many multiplicities as knots); otherwise an error is raised and no object exists. The accepted object reports exactly the data given, its bounds are the first and last knot, replacing its poles by another number of poles is refused, and flat knots and knots-with-multiplicities are interchangeable descriptions of it.",
 ["inputs"], "All small knot multiplicity vectors (valid and invalid), orderings, pole counts and degrees within the bound.",
 "Tests check a couple of bad inputs; the accept/reject frontier is combinatorial.",
 ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/knotsfunctions.ixx"],
 [("check_curve / check_knots in constructors", "gbs/bscurve.h"), ("flat_knots / unflat_knots / multiplicity", "gbs/knotsfunctions.ixx")])

prop("C06", "Interpolation satisfies every constraint it is given",
 "The curve, scalar function or surface returned by any interpolation routine (points, points with derivatives, mixed constraints at arbitrary parameters, bound constraints, point grids, scattered surface constraints, any parametrization mode) passes through every given point and has every given derivative at the parameter associated with it. Data that already lies on a spline of the interpolation space is reproduced.",
 ["inputs"], "All admissible degrees, numbers of points, derivative orders, parametrizations and unit data vectors (the construction is linear in the data for given parameters) within the bound.",
 "Tests interpolate a few point sets; rows mixed up for other degree/size/derivative order combinations go unseen.",
 ["gbs/bscinterp.h", "gbs/bssinterp.h", "gbs/knotsfunctions.ixx"],
 [("collocation matrices and flat knot construction", "gbs/bscinterp.h"), ("grid and constraint interpolation", "gbs/bssinterp.h")])

prop("C07", "Approximation is the least-squares fit and keeps imposed ends",
 "For given parameters, degree and pole count, curve and surface approximation return a spline whose squared deviation at the data is minimal in the requested space; when ends are imposed, the first and last data points are met exactly and the fit is minimal among such splines. Data lying on a spline of the space is reproduced, and tolerance-driven refinement returns the least-squares fit on a superset of the initial knots, stopping only when the tolerance is met, the pole or iteration limit is reached or no knot can be placed. Fits of a curve cover exactly the requested parameter range, and impossible sizes (too few poles for the degree, more poles than data) are refused.",
 ["inputs"], "All degrees, pole counts, data sizes, end-constraint modes and unit data vectors within the bound.",
 "Tests check that a deviation is below a loose threshold on a few data sets, which a sub-optimal or unconstrained fit also meets.",
 ["gbs/bscapprox.h", "gbs/bssapprox.h"],
 [("normal equations / QR least squares", "gbs/bscapprox.h"), ("separable grid least squares", "gbs/bssapprox.h")])

prop("C08", "Joining, connecting, extending and unifying curves keeps the originals",
 "Joining curves end to end yields one curve that traces the first then the second; making curves compatible gives all of them the same degree, knots and bounds without changing any shape; connecting or extending curves produces a curve that contains the original part unchanged and meets the requested end points with the announced continuity, from whichever side it is taken.",
 ["inputs", "histories"], "All combinations of degrees, knot patterns, rational or not, bounds and continuity orders within the bound.",
 "Tests use one pair of curves of equal degree for most tools.",
 ["gbs/bsctools.h", "gbs/bscbuild.h", "gbs/curveextended.h"],
 [("unify/join/connect/extend/c2 split", "gbs/bsctools.h")])

prop("C09", "Lofted and Gordon surfaces contain the curves they are built from",
 "A surface lofted through sections contains every section as the iso-parametric curve at the section's parameter, for any number of sections, degrees, rational or not, with or without a spine; a surface built from a curve network contains every curve of the network, and a network whose curves do not meet is refused with an error. Surface joining, splitting, extension (on any side, to a length or to a curve) and compatibility tools keep the original part of the surface unchanged, and an extension meets its target curve.",
 ["inputs"], "All numbers of sections, section degrees and knot patterns, skinning degrees and network sizes within the bound.",
 "Tests check a few lofts of similar sections at a few points.",
 ["gbs/loft", "gbs/bssbuild.h", "gbs/bsstools.h"],
 [("skinning by interpolation of unified section poles", "gbs/loft"), ("transfinite Gordon sum", "gbs/bssbuild.h")])

prop("C10", "Derived curves and surfaces are what their definition says",
 "Trimmed, reversed, re-parametrized, composite, extended, offset, on-surface, line, circle and revolution entities return at every parameter and derivative order exactly the point and derivatives implied by their definition from their base geometry (chain rule included), report the matching bounds, and follow their base geometry when it is shared.",
 ["inputs"], "All adaptor kinds, nesting of two adaptors, parameters (ends, junctions, interior) and derivative orders supported, over a family of base geometries.",
 "Tests check values of some adaptors at a few parameters and rarely derivatives.",
 ["gbs/curvetrimmed.h", "gbs/curveReversed.h", "gbs/curvereparametrized.h", "gbs/curvecomposite.h", "gbs/curveextended.h", "gbs/curveoffset.h", "gbs/curveonsurface.h", "gbs/curveline.h", "gbs/curvecircle.h", "gbs/surfaceofrevolution.h", "gbs/surfaceoffset.h"],
 [("value() of each adaptor", "gbs/curve*.h, gbs/surface*.h")])

prop("C11", "Lengths, arc-length laws and discretizations describe the curve faithfully",
 "Measured length is the arc length, additive over sub-ranges and independent of direction; the arc-length law and its inverse map bounds to bounds, are increasing, and equal spacing in length is obtained from them; every discretization starts and ends at the requested bounds, has the requested number of points (or meets the requested deviation), is in parameter order and lies on the curve.",
 ["inputs"], "All curves of a family (lines, arcs, splines with multiple knots, non-unit bounds, adaptors), all point counts and sub-ranges in the bound.",
 "Tests measure a few curves on their full range.",
 ["gbs/bscanalysis.h", "gbs/bssanalysis.h"],
 [("gauss integration by knot span, abscissa inversion, discretization", "gbs/bscanalysis.h")])

prop("C12", "Closest-point and intersection searches return consistent, correct results",
 "For a point lying on a curve or surface, or two crossing curves (or curve and surface) started from the default guess, the search returns parameters inside the bounds that designate that point, and the distance reported with the parameters equals the distance between the designated points. From a given guess the search never returns something farther than the guess.",
 ["inputs"], "All target parameters on a grid including ends and knots, over a family of curves and surfaces, and small off-curve displacements.",
 "Tests project a few points.",
 ["gbs/extrema.h", "gbs/solvers.h"],
 [("NLopt minimisation on squared distance", "gbs/extrema.h")])

prop("C13", "Geometric transforms commute with evaluation",
 "Transforming a point, curve or surface (translation, rotation, scaling, change of reference) moves every point by that transform and only that: evaluating a transformed object equals transforming the evaluated point, derivatives follow the linear part, weights and parametrization are unchanged, transforms compose and invert, and copying variants leave the source untouched.",
 ["inputs", "histories"], "All transform kinds and pairs of them, both directions of frame changes, applied to polynomial and rational curves and surfaces.",
 "Tests apply a few transforms to a few points.",
 ["gbs/transform.h", "gbs/transformpoints.h", "gbs/vecop.ixx"],
 [("pole-wise transforms with weight handling", "gbs/transform.h")])

prop("C14", "Parallel evaluation and batch building equal sequential execution",
 "Evaluating many parameters on a shared curve or surface, transforming poles or building a batch of curves gives, for every thread interleaving and chunking and every input size around the parallel thresholds, the same results in the same order as one-by-one sequential execution. If some items fail, the error reported is that of the first failing item in input order, once every item has been given its chance, and concurrent read-only use of one shared object is free of data races.",
 ["schedules", "inputs"], "All element execution orders and two-thread interleavings within the bound, all sizes around the thresholds, all subsets of failing items.",
 "Tests run whatever schedule the machine produces on a few sizes; the order of completion and the failing subset are never controlled.",
 ["gbs/execution.h", "gbs/bscurve.h", "gbs/bssurf.h", "gbs/bscinterp.h", "gbs/bscapprox.h", "gbs/bssbuild.h"],
 [("threshold selected parallel transform", "gbs/execution.h"), ("per-slot exception capture in batches", "gbs/execution.h")])

prop("C15", "Half-edge mesh stays a consistent manifold through every edit sequence",
 "After any sequence of supported mesh edits (adding faces, flipping edges, inserting vertices, splitting edges, removing faces or loops) every face is a closed oriented loop of its half-edges, opposites are mutual and run in reverse directions, boundary detection and neighbour, face and boundary queries agree with the faces present, and the set of faces is exactly the one the edits define (hence the total covered area is unchanged except by added or removed faces).",
 ["histories"], "All edit sequences up to the depth bound from several small meshes (fans, strips, grids, single faces).",
 "Tests perform one edit on one mesh.",
 ["inc/topology/halfEdgeMeshEditors.h", "inc/topology/halfEdgeMeshGetters.h", "inc/topology/halfEdgeMeshData.h", "inc/topology/halfEdgeMeshQuality.h"],
 [("link_edges/flip/add_vertex/remove_faces", "inc/topology/halfEdgeMeshEditors.h")])

prop("C16", "Point-set triangulation is a valid Delaunay triangulation",
 "For every set of points (any insertion order, collinear and cocircular groups, duplicates), the unconstrained triangulation uses only the given points, has positively oriented non-overlapping triangles, covers every point not dropped as a duplicate, satisfies the empty-circle condition, and does not depend on the insertion order beyond the choice among cocircular alternatives.",
 ["inputs", "histories"], "All subsets of a small integer grid and all insertion orders within the bound.",
 "Tests triangulate random clouds in general position, where degenerate point/edge/circle configurations have probability zero.",
 ["inc/topology/tessellations.h", "inc/topology/halfEdgeMeshGeomTests.h", "inc/topology/robustPredicates.h"],
 [("Bowyer-Watson insertion with exact orientation", "inc/topology/tessellations.h")])

prop("C17", "Constrained triangulation fills exactly the polygon minus its holes",
 "For every simple polygon with simple disjoint holes, the constrained triangulation contains every boundary segment as an edge, consists of positively oriented non-overlapping triangles on the given vertices, and its area equals the polygon area minus the hole areas, whatever the orientation or starting vertex of the loops.",
 ["inputs"], "All simple polygons on a small integer grid up to the vertex bound, all start vertices and both orientations, with and without a hole.",
 "Tests use a few hand drawn outlines.",
 ["inc/topology/tessellations.h", "inc/topology/edgeRecovery.h"],
 [("edge recovery by flips, flood-fill classification", "inc/topology/edgeRecovery.h, inc/topology/tessellations.h")])

prop("C18", "Geometric predicates give the exact answer",
 "Orientation of three points has exactly the sign of the real-number determinant for all double inputs; point-in-triangle, point-in-polygon, on-segment and segment-crossing tests agree with exact arithmetic for every configuration, including collinear, touching and coincident ones, independent of vertex order or starting vertex (as long as no product of coordinates overflows or underflows).",
 ["inputs"], "All configurations of points on small integer grids and on grids of adjacent doubles around critical lines.",
 "Tests use a few generic configurations; the failing set has measure zero.",
 ["inc/topology/robustPredicates.h", "inc/topology/baseGeom.h", "inc/topology/baseIntersection.h", "inc/topology/halfEdgeMeshGeomTests.h"],
 [("adaptive exact arithmetic", "inc/topology/robustPredicates.h")])

prop("C19", "Structured transfinite meshes match their boundary and lattice curves",
 "A transfinite structured mesh built from a lattice of curves has the announced dimensions, passes through every lattice curve point at the corresponding rows and columns (hence the four boundaries), reproduces bilinear geometry exactly, and sizes computed for opposite curves agree; smoothing keeps boundary nodes fixed.",
 ["inputs"], "All lattice sizes, node counts per strip, blend orders and orientations within the bound.",
 "Tests build a few meshes and mostly render them.",
 ["gbs-mesh/tfi.h", "gbs-mesh/mshedge.h", "gbs-mesh/smoothing.h"],
 [("blending functions and projector sum", "gbs-mesh/tfi.h")])

prop("C20", "Saving to JSON and reading back gives the same geometry",
 "Every curve and surface that can be both written and read (polynomial, rational, on-surface, scalar function, surface of revolution, composed definitions) comes back from its JSON form with the same type, degree, knots, multiplicities, poles, weights and bounds, bit for bit (rational poles within a few rounding errors, as weights are factored out), and therefore the same evaluations; documents cut short, of unknown type, or with a missing or ill-typed member are reported, not turned into geometry.",
 ["inputs"], "All writable/readable entity kinds, dimensions, degrees, knot patterns and extreme coordinate values within the bound.",
 "Tests read a few example files.",
 ["gbs-io/tojson.h", "gbs-io/fromjson.h"],
 [("writer and reader of each entity type", "gbs-io/tojson.h, gbs-io/fromjson.h")])

prop("C21", "Conversion to the CAD kernel preserves geometry",
 "Converting a B-spline or NURBS curve (2D, 3D) or surface to the CAD kernel's representation yields an entity with the same degree, knots, multiplicities, poles, weights and bounds, so that both kernels evaluate the same points and derivatives at all parameters; point containers convert element by element in order.",
 ["inputs"], "All degrees, knot patterns, pole counts (different in the two directions) and weights within the bound.",
 "Tests compare a few curves and equal-size surfaces.",
 ["gbs-occt/curvesbuild.cpp", "gbs-occt/surfacesbuild.cpp", "gbs-occt/containers.h", "gbs-occt/curvesbuild.h", "gbs-occt/surfacesbuild.h"],
 [("array conversion with 1-based kernel indices", "gbs-occt/containers.h")])

prop("C22", "Wires chain edges consistently whatever the insertion order",
 "Adding edges to a wire accepts exactly the edges that continue it (starting at its end or ending at its start, through a shared vertex or within the tolerances), in any order of insertion, keeps consecutive edges connected through one shared vertex, and reports it closed exactly when its ends coincide; after closing no further edge is accepted.",
 ["histories", "inputs"], "All insertion orders and orientations of edge sets of small polygons, open and closed.",
 "Tests add edges in one order.",
 ["inc/topology/wire.h", "inc/topology/edge.h", "inc/topology/vertex.h"],
 [("vertex fusion on addEdge", "inc/topology/wire.h")])

prop("C23", "Shape deformation meets its targets and leaves the fixed parts alone",
 "Moving a curve or surface to a point or to a set of constraints yields a shape that meets every constraint exactly at the requested parameter and derivative order, keeps degree and knots, leaves imposed ends (or contour) in place when asked, and is the smallest such pole displacement, whenever the constraints are independent.",
 ["inputs"], "All degrees, knot patterns, constraint parameters, derivative orders, constraint counts and end-fixing modes within the bound.",
 "Tests move one curve to one point.",
 ["gbs/bscshaping.h", "gbs/bssshaping.h"],
 [("least-norm pole displacement", "gbs/bscshaping.h")])

prop("C24", "Derivative, integral and elementary curve builders are exact",
 "The curve built as derivative (or integral) of a spline evaluates everywhere to the derivative (or the integral) of the original, deriving an integral gives the original back, and elementary builders (segments, arcs, circles, ellipses, points-to-Bezier) lie exactly on the shape they name, with the requested end points and parametrization.",
 ["inputs"], "All degrees, knot patterns, integration constants and elementary shape parameters within the bound.",
 "Tests sample a few builders at a few parameters.",
 ["gbs/bscbuild.h", "gbs/bsctools.h"],
 [("pole differences scaled by knot spans", "gbs/bscbuild.h")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
