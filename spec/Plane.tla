------------------------------- MODULE Plane -------------------------------
(***************************************************************************)
(* Measures and predicates on points, segments, triangles, polygons.       *)
(***************************************************************************)
EXTENDS Delaunay
Sub2(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
Det(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Dot2(u, v) == RAdd(RMul(u[1], v[1]), RMul(u[2], v[2]))
\* the centre of the circle through a, b, c (not on a line)
Centre(a, b, c) ==
    LET u == Sub2(b, a) v == Sub2(c, a) D == RMul(2, Det(u, v)) u2 == Dot2(u, u) v2 == Dot2(v, v)
    IN <<RAdd(a[1], RDiv(RSub(RMul(v[2], u2), RMul(u[2], v2)), D)), RAdd(a[2], RDiv(RSub(RMul(u[1], v2), RMul(v[1], u2)), D))>>
\* d = a + u (c - a) + v (b - a)
Bary(a, b, c, d) ==
    LET p == Sub2(c, a) q == Sub2(b, a) r == Sub2(d, a) D == Det(p, q) IN <<RDiv(Det(r, q), D), RDiv(Det(p, r), D)>>
InClosedTri(a, b, c, d) == LET s == RSign(Orient(a, b, c)) IN
      s * RSign(Orient(a, b, d)) >= 0 /\ s * RSign(Orient(b, c, d)) >= 0 /\ s * RSign(Orient(c, a, d)) >= 0
\* a + t (b - a) = c + s D
Param(a, b, c, D) ==
    LET u == Sub2(b, a) w == Sub2(c, a) delta == Det(u, D)
    IN <<RDiv(Det(w, u), delta), RDiv(Det(w, D), delta)>>    \* <<s, t>>
VEq2(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2])
OnSeg(a, b, p) == VEq2(a, p) \/ VEq2(b, p) \/ Between(a, b, p)
OnPoly(P, x) == \E i \in 1..Len(P) : OnSeg(P[i], P[(i % Len(P)) + 1], x)
\* three dimensions
Cross3(u, v) == <<RSub(RMul(u[2], v[3]), RMul(u[3], v[2])), RSub(RMul(u[3], v[1]), RMul(u[1], v[3])), RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
=============================================================================
