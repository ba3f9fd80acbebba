----------------------------- MODULE Delaunay -----------------------------
(***************************************************************************)
(* Plane triangulations: orientation and circle tests in exact arithmetic, *)
(* Delaunay property, insertion of a point, recovery of an edge, polygons. *)
(* X maps a vertex to its coordinates (a pair of rationals).               *)
(***************************************************************************)
EXTENDS Rat, HalfEdge

\* twice the signed area of abc: > 0 when it turns counter-clockwise
Orient(a, b, c) == RSub(RMul(RSub(a[1], c[1]), RSub(b[2], c[2])), RMul(RSub(a[2], c[2]), RSub(b[1], c[1])))
\* the size of its terms
OrientMag(a, b, c) == RAdd(RAbs(RMul(RSub(a[1], c[1]), RSub(b[2], c[2]))), RAbs(RMul(RSub(a[2], c[2]), RSub(b[1], c[1]))))
Sq(a, d) == RAdd(RMul(RSub(a[1], d[1]), RSub(a[1], d[1])), RMul(RSub(a[2], d[2]), RSub(a[2], d[2])))
Cross2(a, b, d) == RSub(RMul(RSub(a[1], d[1]), RSub(b[2], d[2])), RMul(RSub(a[2], d[2]), RSub(b[1], d[1])))
\* > 0 when d is strictly inside of the circle through a, b, c (counter-clockwise)
InCirc(a, b, c, d) == RAdd(RAdd(RMul(Sq(a, d), Cross2(b, c, d)), RMul(Sq(b, d), Cross2(c, a, d))), RMul(Sq(c, d), Cross2(a, b, d)))
CrossMag(a, b, d) == RAdd(RAbs(RMul(RSub(a[1], d[1]), RSub(b[2], d[2]))), RAbs(RMul(RSub(a[2], d[2]), RSub(b[1], d[1]))))
InCircMag1(a, b, c, d) == RAdd(RAdd(RMul(Sq(a, d), CrossMag(b, c, d)), RMul(Sq(b, d), CrossMag(c, a, d))), RMul(Sq(c, d), CrossMag(a, b, d)))
\* whichever of the points is taken as the origin
InCircMag(a, b, c, d) == RAdd(RAdd(InCircMag1(a, b, c, d), InCircMag1(b, c, d, a)), RAdd(InCircMag1(c, d, a, b), InCircMag1(d, a, b, c)))

Or3(X, f) == Orient(X[f[1]], X[f[2]], X[f[3]])
Ccw(X, M) == \A f \in M : Len(f) = 3 /\ RLt(0, Or3(X, f))
RECURSIVE Area2(_, _)
Area2(X, M) == IF M = {} THEN R(0) ELSE LET f == CHOOSE f \in M : TRUE IN RAdd(Or3(X, f), Area2(X, M \ {f}))
\* no vertex of V is inside of the circle of f by more than rounding (tol is relative to the size of the terms)
EmptyCircle(X, f, V, tol) == \A v \in V : v \in Verts(f) \/
      RLe(InCirc(X[f[1]], X[f[2]], X[f[3]], X[v]), RMul(tol, InCircMag(X[f[1]], X[f[2]], X[f[3]], X[v])))
IsDelaunay(X, M, V, tol) == \A f \in M : EmptyCircle(X, f, V, tol)
\* the circle through a, b, c lies in the box lo..hi
CircleIn(a, b, c, lo, hi) ==
    LET bx == RSub(b[1], a[1]) by == RSub(b[2], a[2]) cx == RSub(c[1], a[1]) cy == RSub(c[2], a[2])
        D == RMul(2, RSub(RMul(bx, cy), RMul(by, cx)))
        b2 == RAdd(RMul(bx, bx), RMul(by, by)) c2 == RAdd(RMul(cx, cx), RMul(cy, cy))
        u == <<RDiv(RSub(RMul(cy, b2), RMul(by, c2)), D), RDiv(RSub(RMul(bx, c2), RMul(cx, b2)), D)>>
        r2 == RAdd(RMul(u[1], u[1]), RMul(u[2], u[2]))
    IN \A k \in 1..2 : LET x == RAdd(a[k], u[k]) l == RSub(x, lo[k]) h == RSub(hi[k], x)
                       IN RLe(0, l) /\ RLe(0, h) /\ RLe(r2, RMul(l, l)) /\ RLe(r2, RMul(h, h))

\* x in the closed triangle
InTri(X, f, x) == /\ RLe(0, Orient(X[f[1]], X[f[2]], x)) /\ RLe(0, Orient(X[f[2]], X[f[3]], x)) /\ RLe(0, Orient(X[f[3]], X[f[1]], x))
Inside(X, M, x) == \E f \in M : InTri(X, f, x)

\* Bowyer-Watson: the faces whose circle strictly contains x, and the one or two that contain x
Cavity(X, M, x) == {f \in M : RLt(0, InCirc(X[f[1]], X[f[2]], X[f[3]], x)) \/ InTri(X, f, x)}
Insert(X, M, w, x) == Fill(M, Cavity(X, M, x), w)

\* segments p-q and a-b cross at an inner point of both
Crosses(p, q, a, b) == /\ RSign(Orient(p, q, a)) * RSign(Orient(p, q, b)) < 0
                       /\ RSign(Orient(a, b, p)) * RSign(Orient(a, b, q)) < 0
\* p lies on the segment a-b, ends excluded
Between(a, b, p) == /\ RSign(Orient(a, b, p)) = 0
                    /\ LET d == RAdd(RMul(RSub(p[1], a[1]), RSub(b[1], a[1])), RMul(RSub(p[2], a[2]), RSub(b[2], a[2])))
                       IN RLt(0, d) /\ RLt(d, Sq(a, b))
\* the two triangles of e form a strictly convex quadrilateral
Convex(X, M, e) == LET x == Apex(FaceOf(M, e), e) y == Apex(FaceOf(M, Rev(e)), e)
                   IN RLt(0, Orient(X[x], X[e[1]], X[y])) /\ RLt(0, Orient(X[y], X[e[2]], X[x]))

\* polygons: sequences of points
RECURSIVE Shoe(_, _)
Shoe(P, i) == IF i = 0 THEN R(0)
              ELSE LET a == P[i] b == P[(i % Len(P)) + 1] IN RAdd(Shoe(P, i - 1), RSub(RMul(a[1], b[2]), RMul(a[2], b[1])))
PolyArea2(P) == Shoe(P, Len(P))
\* even-odd rule
Above(a, x) == RLt(x[2], a[2])
CrossesRay(a, b, x) == /\ Above(a, x) # Above(b, x)
                       /\ (Above(b, x) => RLt(0, Orient(a, b, x))) /\ (Above(a, x) => RLt(Orient(a, b, x), 0))
InPoly(P, x) == Cardinality({i \in 1..Len(P) : CrossesRay(P[i], P[(i % Len(P)) + 1], x)}) % 2 = 1
=============================================================================
