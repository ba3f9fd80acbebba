TV = "TLC validates every recorded event of the real code against the specification, in exact rational arithmetic with a rounding allowance scaled to the evaluated quantity; the inputs are a bounded exhaustive family enumerated by TLC plus seeded random ones. "

prop("C01", "Basis functions, knot spans and knot vectors follow their definitions",
     "For every valid clamped knot vector, degree and parameter of its range, every basis function and every derivative of it that the library computes (one function, the non-zero ones of a span, or the whole derivative table, at any order up to the degree and any degree the fast evaluators support) has the value of the Cox-de Boor definition, right-continuous at interior knots and left-continuous at the last one, and the reported span is the one containing the parameter. "
     "Flattening and unflattening knots, multiplicity queries (exact, or within the knot tolerance), clamped knot vectors built from parameters or bounds, change of bounds, and the chord-length, centripetal and uniform parametrizations of points give exactly the knots, multiplicities and parameters their definitions say.",
     ["inputs", "configurations"], "all clamped knot vectors, degrees, parameters (knots and their neighbours included), derivative orders, float and double",
     "the tests compare a few hand-picked knot vectors with known values or with another library; the guarantee is over all knot vectors, multiplicities, degrees and parameters",
     ["gbs/basisfunctions.ixx", "gbs/knotsfunctions.ixx"],
     [("recursive, one-pass and table basis evaluators", "gbs/basisfunctions.ixx"), ("knot vector helpers", "gbs/knotsfunctions.ixx")],
     TV + "MC_Basis proves on the specification, for every knot vector up to the bound, partition of unity, non-negativity, local support, derivative consistency.")

prop("C02", "A curve evaluates to the B-spline or NURBS its definition denotes",
     "For every curve built from valid poles, knots (flat, or with multiplicities), degree and, when rational, positive weights, every evaluation route (single values and derivatives of any order, tables of derivatives, lists of parameters, end points, unit tangent and curvature vector, the stand-alone evaluators, and functions of one variable) returns, up to rounding, the point or derivative of the mathematical B-spline or NURBS at that parameter. "
     "Interior knots are evaluated right-continuously, the last parameter left-continuously, and orders above the degree of a polynomial curve give zero.",
     ["inputs", "configurations"], "all curves of dimension 1 to 3, polynomial and rational, float and double, all parameters of their bounds, all derivative orders",
     "tests check a handful of curves and parameters, mostly orders 0 to 2",
     ["gbs/bscurve.h", "gbs/basisfunctions.ixx", "gbs/math.ixx"],
     [("evaluators of values and derivative tables, quotient rule for rational curves", "gbs/basisfunctions.ixx"), ("curve classes", "gbs/bscurve.h")],
     TV + "Curves over every small knot vector of MC_Basis are replayed.")

prop("C03", "A surface evaluates to the tensor-product surface its definition denotes",
     "For every surface built from valid poles, knots, degrees and, when rational, positive weights, every evaluation route (values and mixed partial derivatives of any orders, tables of mixed derivatives, lists of parameters, tangents, unit tangents and curvature vectors along the parametric directions) returns, up to rounding, the point or derivative of the mathematical tensor-product B-spline or NURBS surface. "
     "Poles read by index, by row and by column are the poles of the definition, an index past the last row or column being clamped to it as documented, and indices out of range in single pole access are refused.",
     ["inputs", "configurations"], "all surfaces of dimension 1 to 3, polynomial and rational, float and double, all degrees and knots per direction, all parameters and derivative orders",
     "tests check a few surfaces with equal degrees and numbers of poles at a few parameters, so that exchanging the directions or a wrong mixed order can go unnoticed",
     ["gbs/bssurf.h", "gbs/basisfunctions.ixx"],
     [("tensor-product evaluators and rational quotient rule", "gbs/basisfunctions.ixx"), ("surface classes and pole access", "gbs/bssurf.h")],
     TV)

prop("C04", "Curve edits never change the shape of the curve",
     "After any sequence of knot insertions (single, repeated, or up to given multiplicities), degree elevations, trims, reversals and changes of bounds, a curve is still a valid curve with exactly the expected degree, knots and bounds, and its points, as a function of the correspondingly transformed parameter, are those it had before. "
     "Removing a knot changes the curve by no more than the tolerance given, removes no more occurrences than asked, never removes end knots, and succeeds on knots that had just been inserted; inserting outside of the knot range leaves the curve unchanged.",
     ["inputs", "histories"], "all valid curves (interior multiplicities up to the degree; discontinuous curves for insertions, trims of the end, reversals and changes of bounds) and all sequences of edits with all arguments",
     "each test edits one curve once; the guarantee is over all knot configurations and compositions of edits",
     ["gbs/bscurve.h", "gbs/knotsfunctions.ixx"],
     [("knot insertion, removal, elevation, trimming algorithms", "gbs/knotsfunctions.ixx"), ("curve edit members", "gbs/bscurve.h")],
     TV + "MC_CurveEdit explores every edit sequence up to the depth bound on the specification (shape preserved exactly) and the sequences are replayed on the real code.")

prop("C05", "Surface edits never change the shape of the surface; iso curves lie on it",
     "After any sequence, in either direction, of knot insertions, degree elevations, trims, reversals, changes of bounds and exchanges of the two directions, a surface is still valid with exactly the expected degrees, knots and bounds, and its points, as a function of the correspondingly transformed parameters, are those it had before. "
     "At every moment the iso-parametric curves of the surface, in both directions and at every parameter including the ends, are valid curves that coincide with the surface along that parameter, and an iso parameter out of the bounds is refused.",
     ["inputs", "histories"], "all valid surfaces (interior multiplicities up to the degrees), all sequences of edits in U and V",
     "each test edits one surface once, mostly with the same degree and number of poles in both directions",
     ["gbs/bssurf.h", "gbs/knotsfunctions.ixx"],
     [("surface edit members, iso curves", "gbs/bssurf.h")],
     TV + "MC_SurfEdit explores every edit sequence up to the depth bound on the specification and the sequences are replayed on the real code.")

prop("C06", "Joining, splitting, extending and unifying keep every shape involved",
     "Bringing curves to a common degree and knot vector, or surfaces of equal degrees to common knots, leaves every one of them with its shape (over the parameter range of the first), gives all of them the same knots, and those knots are the union of the inputs' knots with the largest multiplicity of each. "
     "Joining two curves, or two surfaces in U, gives one whose first part is the first and whose rest is the second, shifted in parameter; surfaces with other V knots are refused. Splitting gives the two parts, and joining them gives the original back. Adding a dimension keeps the other coordinates and sets the new one to the given value everywhere. "
     "An extended curve or surface contains the original unchanged, ends at the requested point, length or curve, and is continuous with it to the requested order; a connecting curve matches the end and start of the two curves up to the promised derivative.",
     ["inputs", "configurations"], "all curves and surfaces, polynomial and rational, of any degrees (different ones in one call), ranges, knots and multiplicities",
     "tests join and extend a few curves of one degree over [0,1]",
     ["gbs/bsctools.h", "gbs/bsstools.h"],
     [("unification, join, connection and extension of curves", "gbs/bsctools.h"), ("the same for surfaces, split", "gbs/bsstools.h")],
     TV + "MC_CurveTools checks on every pair of small curves that the specified unification, join and split keep the shapes.")

prop("C07", "Only valid definitions are accepted, and an object never leaves them",
     "Constructors of curves and surfaces accept exactly the definitions whose knots are non-decreasing, with one more knot than poles plus degree and at least degree plus one poles per direction, and refuse every other with invalid_argument; weights or multiplicities not matching in number are refused with length_error. "
     "Replacing poles or knots by another number of them, or addressing a pole out of range, is refused (length_error, out_of_range) and leaves the object unchanged; accepted replacements change exactly that. "
     "The bounds are the first and last knot unless restricted by a temporary trim; evaluating outside them by more than the knot tolerance is refused with domain_error on every route, within them it never is. Weights, projected poles, distinct knots and multiplicities read back are those of the definition.",
     ["inputs", "histories"], "all knot sequences (any order, length and multiplicities), numbers of poles and weights, degrees, indices and parameters; all sequences of replacements",
     "tests build valid objects and sample a couple of refused ones",
     ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/knotsfunctions.ixx"],
     [("validity check, constructors, pole and knot replacement, bounds check of evaluators", "gbs/bscurve.h"), ("the same for surfaces", "gbs/bssurf.h")],
     TV + "MC_Definition enumerates every short sequence of knots with every number of poles and degree; these definitions are offered to the real constructors.")

prop("C08", "An interpolating curve passes through its data",
     "For every set of distinct points, with parameters given or computed (equally spaced, chord length, centripetal), every degree below the number of points and every overload (points, values of a function, several sets at once, points with derivatives, arbitrary constraints on derivatives, bounds with constraints in any order), the curve built is valid, of the expected degree and over the expected knots (averages of the parameters, or every parameter repeated), and takes every datum at its parameter up to rounding. "
     "Tangents estimated at the points are those of the parabola through three neighbours, at the ends the ones exact on parabolas. Too few points or constraints for the degree are refused (domain_error, invalid_argument).",
     ["inputs", "configurations"], "all numbers of data (below and above the sizes where the solver changes), degrees, parameters, orders and arrangements of constraints, dimensions 1 to 3, float and double",
     "tests interpolate a few small sets of points with equal numbers of constraints",
     ["gbs/bscinterp.h", "gbs/knotsfunctions.ixx", "gbs/vecop.ixx"],
     [("collocation matrices, band, dense and sparse solvers, constraints", "gbs/bscinterp.h")],
     TV + "MC_Fit proves on the specification, for every small set of parameters, that the interpolant over averaged knots exists, is unique, meets its data and reproduces polynomials; its data sets are replayed.")

prop("C09", "An interpolating surface passes through its data",
     "For every grid of points (any numbers of points and degrees per direction, parameters given or computed) and every well-posed set of constraints on values and mixed derivatives, the surface built is valid, has the degrees asked for, and takes every datum at its parameters up to rounding, the first index of the grid running along U. "
     "Grids of the wrong size or too small for the degrees are refused.",
     ["inputs", "configurations"], "all grid sizes, degrees and parameters per direction, all constraint orders, float and double",
     "tests use small square grids with equal degrees, on which exchanged directions go unnoticed",
     ["gbs/bssinterp.h", "gbs/bscinterp.h"],
     [("grid and constraint interpolation", "gbs/bssinterp.h")],
     TV + "MC_Fit checks the one-dimensional problem; the grid problem is its tensor product.")

prop("C10", "A least-squares fit is optimal, keeps its ends and is refined where needed",
     "For every set of points and parameters that determines the poles, the fitted curve or surface is valid, has the degree and number of poles asked for over the parameter range, and no other choice of its free poles gives a smaller sum of squared errors; with fixed bounds it starts and ends exactly at the first and last point. "
     "Refinement adds one knot at a time, at the point of largest deviation that is well inside a span, refitting each time, and stops only when the tolerance was met, the iterations are used up, no place is left, or there are nearly as many poles as points. A fit that keeps the parametrization of a curve finds this curve again when the fitted space contains it. "
     "Fewer poles than the degree needs, or more than data, are refused with length_error.",
     ["inputs", "histories"], "all data sets, parameters (negative ones included), degrees, numbers of poles (below and above the sizes where the solver changes), knots, tolerances and refinement histories; curves, grids of points and scattered surface constraints",
     "tests compare a few fits with a coarse distance tolerance, which a fit that is not optimal also meets",
     ["gbs/bscapprox.h", "gbs/bssapprox.h"],
     [("normal equations, fixed bounds, refinement", "gbs/bscapprox.h"), ("separable and scattered surface fits", "gbs/bssapprox.h")],
     TV + "Optimality is decided by the gradient vanishing; refinement is replayed as a behaviour of the specification (one knot per step). MC_Fit proves on small data sets that a vanishing gradient is the minimum.")

prop("C11", "Batches and bulk evaluations equal one-by-one calls under every schedule",
     "Whatever the number of inputs, the gates that choose between serial and parallel execution, the number of threads and their interleaving, a batch of curves (interpolation, approximation, or any builder) and a bulk evaluation of a curve or surface (values, derivatives, unit tangents, curvature vectors, discretization) returns exactly, bit by bit, what one-by-one calls return, in input order, also when several threads use the same object at once. "
     "Every input of a batch is built exactly once when the call returns; below the gate inputs are processed in order by the caller. When inputs fail, the call throws the exception of the first failing one, and the process goes on.",
     ["schedules", "inputs"], "all numbers of inputs, gate values, sets of failing inputs, thread interleavings, container kinds",
     "a test run samples one schedule, and tests compare large inputs only without failures",
     ["gbs/execution.h", "gbs/bscurve.h", "gbs/bssurf.h", "gbs/bscapprox.h", "gbs/bscinterp.h"],
     [("size-gated transform and batch helpers", "gbs/execution.h")],
     "MC_Batch explores every interleaving of every small batch (safety, and termination under fairness); the scenarios are replayed on the real build_batch and transform_threshold with instrumented functions, whose start/end events TLC validates against the specification; the library's bulk evaluators are compared bit by bit with single calls.",
     technique="TLA+ specification of the concurrent batch model-checked with TLC over all interleavings; recorded start/end traces of the real code validated against it by TLC")

prop("C12", "A half-edge mesh stays consistent through every sequence of edits",
     "From any proper mesh and by any sequence of edits (face added on a border edge, vertex inserted in a face or in a cavity, edge flipped, edge split, faces of a vertex removed, face erased) the mesh stays consistent: each half-edge is in one face loop, next and previous are inverse, opposites are mutual and run the other way between the same vertices, every edge seen from two sides is linked, nothing refers to removed elements, and each vertex leads to one of its own half-edges after the editors that promise it. "
     "Each edit changes exactly the faces its description names and keeps coordinates. All getters (face edges, vertices, coordinates, faces around a vertex, neighbours, common edges, boundaries and their order, edge and vertex maps) return exactly what the faces imply.",
     ["histories", "inputs"], "all edit sequences and meshes (boundary, interior, several fans)",
     "tests build a few meshes by hand and check one edit each; inconsistencies show only after particular sequences",
     ["inc/topology/halfEdgeMeshEditors.h", "inc/topology/halfEdgeMeshGetters.h", "inc/topology/halfEdgeMeshData.h"],
     [("edits", "inc/topology/halfEdgeMeshEditors.h"), ("navigation", "inc/topology/halfEdgeMeshGetters.h")],
     "MC_HalfEdge explores every edit sequence up to a bound on abstract meshes (consistency, Euler characteristic); its sequences and longer random ones are replayed on the real half-edge structure, which TLC compares, after every step, with the abstract mesh the specification reaches.",
     technique="TLA+ specification of meshes and edits model-checked with TLC; edit sequences generated from it replayed on the real code, recorded structures validated by TLC")

prop("C13", "Inserting points keeps a plane triangulation valid and Delaunay",
     "For every point and every triangulation, inserting the point replaces a connected set of triangles containing it by the fan of the point: no triangle is inverted, degenerate or overlapping, the covered region and all other triangles are unchanged, and the lists of removed and created triangles are exact. A Delaunay triangulation stays Delaunay up to rounding of the circle test. A repeated point, one outside, or one on the border is refused with the mesh untouched. "
     "The triangulation of a list of points has only these points as vertices, counter-clockwise triangles with empty circles, and covers their convex hull (but for slivers on it flatter than about a thousandth).",
     ["inputs", "histories"], "all point sequences: random, gridded (collinear, cocircular, repeated), nearly collinear, of extreme aspect ratio; float and double",
     "degenerate positions and insertion orders are too many to sample by hand; a triangulation with a missing or overlapping triangle looks plausible",
     ["inc/topology/tessellations.h", "inc/topology/robustPredicates.h", "inc/topology/baseGeom.h"],
     [("boyerWatson, delaunay2DBoyerWatson", "inc/topology/tessellations.h"), ("exact orientation", "inc/topology/robustPredicates.h")],
     "MC_Delaunay inserts every sequence of points of a small grid in exact arithmetic and proves validity, area, Euler count and the Delaunay property on the specification; the sequences and random ones are replayed on the real code and each step is validated by TLC in exact arithmetic.",
     technique="TLA+ specification of Bowyer-Watson insertion model-checked with TLC; its insertion sequences replayed on the real code, recorded meshes validated by TLC in exact arithmetic")

prop("C14", "Polygons with holes are triangulated exactly, and missing edges are recovered",
     "For every simple polygon with any holes inside it, the constrained triangulation has exactly the polygon's and holes' points as vertices, every side as a border edge with the inside on its left, covers the polygon less the holes once, and is a consistent mesh by itself. "
     "Recovering an edge p-q of a triangulation makes it appear whenever no vertex lies between p and q, keeps every edge it does not cross, the border and all vertices. Faces taken by a polygon are those whose centre of gravity is inside (outside) of it, the rest staying a consistent mesh.",
     ["inputs", "configurations"], "all simple polygons, convex or not, with straight or nearly straight sides, staircases, holes, any starting vertex, scale and position",
     "tests use five polygons, all sides of which are already in the Delaunay triangulation",
     ["inc/topology/tessellations.h", "inc/topology/edgeRecovery.h", "inc/topology/halfEdgeMeshEditors.h"],
     [("delaunay2DConstrained", "inc/topology/tessellations.h"), ("edge recovery", "inc/topology/edgeRecovery.h")],
     "MC_Delaunay proves on the specification that flips of crossing edges never get stuck before the edge is there; recorded triangulations and recoveries of the real code are validated by TLC in exact arithmetic.",
     technique="TLA+ specification of edge recovery model-checked with TLC; recorded triangulations of the real code validated by TLC in exact arithmetic")

prop("C15", "Plane predicates and measures are right for every position of their points",
     "For all points: the adaptive orientation test has the exact sign; orientation, circle and triangle tests, barycentric coordinates, intersection of segments and rays, on-segment test, inside-of-polygon test (even-odd, border included, whatever its direction), area, perimeter, incentre, circle and sphere centres, bounding boxes and mesh areas equal their mathematical value - exactly on grids, up to the rounding of their terms elsewhere - with no number for the centre of collinear points. The parallel mesh area equals the sequential one.",
     ["inputs"], "all points: grids (every quadruple of a small one), nearly collinear by units in the last place, cocircular, of mixed scales; self-crossing polygons with points on the level of their vertices; float and double",
     "every mesh algorithm branches on these signs; tests use a few positions in general position",
     ["inc/topology/baseGeom.h", "inc/topology/baseIntersection.h", "inc/topology/robustPredicates.h", "inc/topology/halfEdgeMeshGeomTests.h", "inc/topology/halfEdgeMeshQuality.h"],
     [("triangle, circle, sphere", "inc/topology/baseGeom.h"), ("segments", "inc/topology/baseIntersection.h"), ("exact orientation", "inc/topology/robustPredicates.h"), ("polygon", "inc/topology/halfEdgeMeshGeomTests.h")],
     "Plane.tla defines each predicate in exact rational arithmetic; MC_Plane proves its laws (invariance under permutations, sides of a triangle cover it, crossing is symmetric, ...) on every quadruple of a grid; these quadruples and random ones are given to the real code and TLC decides every answer exactly.",
     technique="TLA+ specification of plane predicates in exact arithmetic, its laws model-checked with TLC over a grid; every grid position and random ones replayed on the real code, answers validated by TLC")

prop("C17", "Curves made from curves, and surfaces of revolution, are what they are made from",
     "For every curve, every stack of derivations and every parameter, the points and derivatives (orders 0 to 2) of a reversed, trimmed, composed, prolonged (along its end tangents or held), reparametrized, offset (plane or space) curve and of a curve on a surface are those its definition gives from its parts - the derivatives being those of its points - and its bounds are where it is defined: leaving them is an error, except for lines and prolonged curves, which have none. A composed curve passes to the next part at the junction. "
     "Lines run at unit speed through their points; circles have their radius, centre and plane however built or resized, to any derivative order; a surface of revolution is its curve (axial, radial) turned about its axis wherever that axis is, for all mixed derivatives.",
     ["inputs", "configurations"], "all B-spline and NURBS curves, all stacks of derivations, parameters at knots, junctions, ends and outside, axes of any direction and position; float and double",
     "each derivation is tested alone on one curve, mostly without derivatives, axes through the origin",
     ["gbs/curveReversed.h", "gbs/curvetrimmed.h", "gbs/curvecomposite.h", "gbs/curveextended.h", "gbs/curvereparametrized.h", "gbs/curveonsurface.h", "gbs/curveoffset.h", "gbs/curveline.h", "gbs/curvecircle.h", "gbs/surfaceofrevolution.h"],
     [("derived curves", "gbs/curves"), ("surface of revolution", "gbs/surfaceofrevolution.h")],
     "Derived.tla defines the jet of a derived curve from those of its parts; MC_Derived stacks every derivation on polynomial curves and proves with exact finite differences that these jets are the derivatives of the points, with the laws of each derivation; the stacks are rebuilt from real objects on random curves and TLC validates the recorded values.",
     technique="TLA+ specification of derived curves model-checked with TLC (exact difference quotients); its stacks of derivations replayed on real objects, recorded jets validated by TLC in exact arithmetic")

prop("C18", "Moving points, curves and surfaces moves every point of them, and nothing else",
     "For every move - translation, rotation in the plane (about the origin or a point) and in space about any axis, scaling about a point (uniform or along one axis), matrices, from the reference frame to any frame and back, from a frame to a frame, composed in any order - the point of a moved curve or surface at a parameter is the moved point, for polynomial and rational ones alike, on poles, points and homogeneous points. "
     "Knots, degrees and weights stay what they were; the variants that return a moved copy leave their argument untouched and equal the in-place ones; a move then its inverse gives the start; a frame's matrix maps the origin, axis and abscissa onto those of the frame.",
     ["inputs", "histories"], "all affine moves and their compositions, all B-spline and NURBS curves and surfaces, points of every dimension; float and double",
     "tests move one point or one circle along axes; a rational pole moved as if it were a point, or a frame taken the wrong way, is right for these",
     ["gbs/transform.h", "gbs/vecop.h", "gbs/transformpoints.h"],
     [("transformations", "gbs/transform.h")],
     "Affine.tla defines every move as an affine map; MC_Affine composes moves and proves their laws (isometries, inverse, frames onto frames, a moved curve has the moved points) in exact arithmetic; the sequences and random ones are applied to real objects, poles and points validated by TLC.",
     technique="TLA+ specification of affine moves model-checked with TLC; its sequences of moves replayed on real objects, recorded points validated by TLC")

prop("C19", "Lofts, Gordon surfaces and other built shapes contain what they are built from",
     "A surface lofted through any sections (of different degrees, knots and parameter ranges, polynomial or rational, evenly spaced or not, given in any container, with given or computed parameters) passes through every section at every parameter, has the degrees asked for (as far as the number of sections allows), and the common knots; along a spine it leaves every section in the direction of the spine. A Gordon surface contains both families of crossing curves; families that do not cross are refused with an exception. "
     "A segment runs through its ends at the speed asked for; an ellipse (circle) has its radii and centre, once round; the derivative curve is the derivative, the integral curve the primitive through its start, and each undoes the other.",
     ["inputs", "configurations"], "all sets of sections (degree, knots, range, rationality, spacing, meeting in a point), degrees, spines, networks of curves",
     "tests loft a few similar, evenly spaced sections and check the surface at few points",
     ["gbs/bssbuild.h", "gbs/bscbuild.h", "gbs/loft"],
     [("lofts", "gbs/loft/loftBase.h"), ("spine loft, gordon", "gbs/bssbuild.h"), ("segment, ellipse, derivative, integral", "gbs/bscbuild.h")],
     "MC_Build builds sections one by one and lofts them with every choice, proving passage, regularity of the systems and the Gordon identity in exact arithmetic; its choices and random ones are replayed on the real builders, and TLC compares the resulting surfaces with their sections in exact arithmetic.",
     technique="TLA+ specification of the builders model-checked with TLC; its choices replayed on the real builders, recorded surfaces validated by TLC in exact arithmetic")

prop("C20", "Searches of closest points end where the distance is least nearby",
     "The closest point of a curve or a surface to a point, of two curves, or of a surface and a curve, is returned as parameters inside the bounds of the shapes with the distance at them; it is never farther than any of the samples the search was asked to look at, nor than the guess it was given, and (one parameter, gradient-free search) the distance grows on both sides of it as far as the bounds go. The search always ends. Searches over a list of curves return, in order, what each search returns; the crossing of two plane lines lies on both; the deviation of points from a curve is the largest and the mean of their distances, and where the largest is.",
     ["inputs", "configurations"], "all shapes (degree, knots, rationality, dimension), positions, guesses, sample counts and solvers",
     "tests project a few points on a few curves, mostly points that lie on them",
     ["gbs/extrema.h", "gbs/solvers.h", "gbs/bscanalysis.h"],
     [("curve and surface to point, curve to curve, surface to curve", "gbs/extrema.h"), ("stopping of searches", "gbs/solvers.h"), ("deviation of points", "gbs/bscanalysis.h")],
     "MC_Closest specifies bracketing and descent on exact curves and proves that descent from the best sample ends in a valley no farther than any sample; its searches and random ones are replayed on the real functions, and TLC recomputes the distances and their slopes at the result, at the samples and at the guess in exact arithmetic.",
     technique="TLA+ specification of the searches model-checked with TLC; its searches replayed on the real functions, recorded results validated by TLC in exact arithmetic")
