---------------------------- MODULE TracePlane ----------------------------
(***************************************************************************)
(* Conformance of the plane predicates and measures.  Where the library    *)
(* computes in floating point, a predicate is only decided outside of the  *)
(* rounding of its terms (never an excuse on grids, flag `ex`, where every *)
(* operation is exact); the adaptive orientation test is always decided.   *)
(***************************************************************************)
EXTENDS TraceBase, Plane
Fl(t) == t.fl
Eps(t) == IF Fl(t) THEN RDiv(1, 262144) ELSE RDiv(RDiv(1, 1048576), 8388608)        \* 2^-18, 2^-43
Tiny == RDiv(1, RMul(R("1e15"), R("1e15")))     \* underflow
Near(x, y, tol) == RFin(x) /\ RLe(RAbs(RSub(R(x), y)), tol)
Clear(t, e, x, mag) == e.ex \/ RLt(RMul(Eps(t), mag), RAbs(x))                       \* the sign of x is certain
Iff(c, p, q) == c => (p <=> q)
Dist(a, b) == RSqrt(Sq(a, b))
ThreeOk(t, e) ==
    LET a == VOf(e.a) b == VOf(e.b) c == VOf(e.c) o == Orient(a, b, c) mg == OrientMag(a, b, c)
        la == Dist(b, c) lb == Dist(a, c) lc == Dist(a, b) per == RAdd(la, RAdd(lb, lc))
        mx == RAdd(RAdd(RAbs(a[1]), RAbs(a[2])), RAdd(RAdd(RAbs(b[1]), RAbs(b[2])), RAdd(RAbs(c[1]), RAbs(c[2]))))
    IN /\ RSign(R(e.or)) = RSign(o) /\ Near(e.or, o, RMul(Eps(t), mg))
       /\ Near(e.o2, o, RMul(Eps(t), mg)) /\ Near(e.o6, o, RMul(Eps(t), mg))
       /\ Iff(Clear(t, e, o, mg), e.ccw, RLe(0, o))
       /\ LET am == RAdd(RAbs(RMul(RSub(b[1], a[1]), RSub(c[2], a[2]))), RAbs(RMul(RSub(b[2], a[2]), RSub(c[1], a[1]))))
          IN Near(e.area, RDiv(RAbs(o), 2), RAdd(Tiny, RMul(Eps(t), am)))
       /\ Near(e.per, per, RMul(Eps(t), RMul(4, per)))
       /\ RSign(per) # 0 =>
            LET q == <<RDiv(RAdd(RMul(la, a[1]), RAdd(RMul(lb, b[1]), RMul(lc, c[1]))), per), RDiv(RAdd(RMul(la, a[2]), RAdd(RMul(lb, b[2]), RMul(lc, c[2]))), per)>>
            IN \A k \in 1..2 : Near(e.inc[k], q[k], RMul(Eps(t), mx))
       \* collinear: no number; else the centre, up to the conditioning of its quotient
       /\ LET A == Sub2(b, a) C == Sub2(c, a) G == RMul(2, o)
              ab(x, y) == RAdd(RAbs(x), RAbs(y))
              Em == RAdd(RMul(RAbs(A[1]), ab(a[1], b[1])), RMul(RAbs(A[2]), ab(a[2], b[2])))
              Fm == RAdd(RMul(RAbs(C[1]), ab(a[1], c[1])), RMul(RAbs(C[2]), ab(a[2], c[2])))
              big == RAdd(RAdd(ab(A[1], A[2]), ab(C[1], C[2])), R(0))
              gm == RMul(big, big)
              ulp == IF Fl(t) THEN RDiv(1, 8388608) ELSE RDiv(1, RMul(67108864, 67108864))
          IN IF RLt(RAbs(G), RAdd(ulp, RMul(Eps(t), gm))) /\ ~e.ex THEN TRUE
             ELSE IF RLt(RAbs(G), ulp) THEN \A k \in 1..2 : ~RFin(e.cc[k])
             ELSE LET m == Centre(a, b, c) num == RMul(big, RAdd(Em, Fm))
                  IN \A k \in 1..2 : Near(e.cc[k], m[k], RMul(Eps(t), RDiv(RAdd(num, RMul(RAdd(RAbs(m[k]), 1), gm)), RAbs(G))))
       \* on the segment: within 10^-10 of its line (cross product), between its ends
       /\ LET tol == RDiv(1, R("10000000000")) IN
          IF VEq2(a, b) THEN TRUE
          ELSE IF VEq2(a, c) \/ VEq2(b, c) THEN e.on
          ELSE IF RLe(RAbs(RSub(RAbs(o), tol)), RMul(Eps(t), RAdd(mg, RAdd(RAbs(RMul(RSub(b[1], a[1]), RSub(c[2], a[2]))), RAbs(RMul(RSub(b[2], a[2]), RSub(c[1], a[1]))))))) /\ ~e.ex THEN TRUE
          ELSE IF RLt(tol, RAbs(o)) THEN ~e.on
          ELSE LET k == IF RLe(RAbs(RSub(b[2], a[2])), RAbs(RSub(b[1], a[1]))) THEN 1 ELSE 2
                   w == RDiv(RSub(c[k], a[k]), RSub(b[k], a[k]))
               IN Iff(e.ex \/ (RLt(Eps(t), RAbs(w)) /\ RLt(Eps(t), RAbs(RSub(w, 1)))), e.on, RLe(0, w) /\ RLe(w, 1))
\* strictly inside of the unit interval / outside / too close to say
SideOf(t, e, x, m0) == IF e.ex THEN (IF RLt(0, x) /\ RLt(x, 1) THEN "in" ELSE "out")
                   ELSE LET m == RMax(m0, IF Fl(t) THEN RDiv(1, 1000) ELSE RDiv(1, 1000000))
                        IN IF RLt(m, x) /\ RLt(x, RSub(1, m)) THEN "in"
                           ELSE IF RLt(x, RNeg(m)) \/ RLt(RAdd(1, m), x) THEN "out" ELSE "?"
\* the rounding of the parameters of an intersection
L1(v) == RAdd(RAbs(v[1]), RAbs(v[2]))
ParErr(t, a, b, c, D) ==
    LET u == Sub2(b, a) w == Sub2(c, a) mag == RMul(RAdd(L1(u), L1(D)), RAdd(L1(w), RAdd(L1(u), L1(D))))
        q == Param(a, b, c, D)
    IN RMul(Eps(t), RDiv(RMul(mag, RAdd(1, RAdd(RAbs(q[1]), RAbs(q[2])))), RAbs(Det(u, D))))
SegOk(t, e, a, b, c, d, r) ==
    LET u == Sub2(b, a) w == Sub2(d, c) delta == Det(u, w)
        dm == RAdd(RAbs(RMul(u[1], w[2])), RAbs(RMul(u[2], w[1])))
        thr == RDiv(1, R("1000000000"))
    IN IF e.ex /\ RSign(delta) = 0 THEN ~r
       ELSE IF RLe(RAbs(delta), RAdd(thr, RMul(RMul(1024, Eps(t)), dm))) THEN TRUE
       ELSE LET q == Param(a, b, c, w) m == ParErr(t, a, b, c, w) s1 == SideOf(t, e, q[1], m) s2 == SideOf(t, e, q[2], m)
            IN IF s1 = "out" \/ s2 = "out" THEN ~r ELSE IF s1 = "in" /\ s2 = "in" THEN r ELSE TRUE
RayOk(t, e, a, b, c, D, r) ==
    LET u == Sub2(b, a) delta == Det(u, D)
        dm == RAdd(RAbs(RMul(u[1], D[2])), RAbs(RMul(u[2], D[1])))
        thr == RDiv(1, R("1000000000"))
    IN IF e.ex /\ RSign(delta) = 0 THEN ~r
       ELSE IF RLe(RAbs(delta), RAdd(thr, RMul(RMul(1024, Eps(t)), dm))) THEN TRUE
       ELSE LET q == Param(a, b, c, D) m == RMax(ParErr(t, a, b, c, D), IF Fl(t) THEN RDiv(1, 1000) ELSE RDiv(1, 1000000))
            IN IF e.ex THEN r <=> (RLt(0, q[1]) /\ RLe(0, q[2]) /\ RLt(q[2], 1))
               ELSE IF RLt(m, q[1]) /\ RLt(m, q[2]) /\ RLt(q[2], RSub(1, m)) THEN r
               ELSE IF RLt(q[1], RNeg(m)) \/ RLt(q[2], RNeg(m)) \/ RLt(RAdd(1, m), q[2]) THEN ~r ELSE TRUE
FourOk(t, e) ==
    LET a == VOf(e.a) b == VOf(e.b) c == VOf(e.c) d == VOf(e.d)
        o == Orient(a, b, c) ic == InCirc(a, b, c, d) im == RAdd(Tiny, RMul(Eps(t), InCircMag(a, b, c, d)))
        big == RAdd(Sq(a, b), RAdd(Sq(a, c), Sq(a, d)))
        wellShaped == RLt(RMul(RMul(4096, Eps(t)), RAdd(Sq(a, b), Sq(a, c))), RAbs(o))
        \* the signs of d against the sides
        certain == e.ex \/ (/\ Clear(t, e, Orient(a, b, d), OrientMag(a, b, d)) /\ Clear(t, e, Orient(b, c, d), OrientMag(b, c, d)) /\ Clear(t, e, Orient(c, a, d), OrientMag(c, a, d)))
    IN /\ Near(e.ic, ic, im) /\ Near(e.icf, ic, im)
       /\ Iff(Clear(t, e, o, OrientMag(a, b, c)), e.ccwf, RLe(0, o))
       \* of the two triangles of the edge a-b: the smaller of the tests; 0 on the border
       /\ LET i2 == InCirc(b, a, d, c) IN Near(e.ld, RMin(ic, i2), RMul(2, im))
       /\ RSign(R(e.ld1)) = 0
       /\ RSign(o) # 0 /\ certain => (e.tri <=> InClosedTri(a, b, c, d))
       /\ wellShaped =>
            LET w == Bary(a, b, c, d)
                ss == RAdd(Sq(a, b), Sq(a, c))
                sc == RDiv(RAdd(RMul(ss, big), RMul(RMul(ss, ss), RAdd(1, RAdd(RAbs(w[1]), RAbs(w[2]))))), RMul(o, o))
                tol == RMul(Eps(t), RMul(4, sc))
            IN /\ Near(e.u, w[1], tol) /\ Near(e.v, w[2], tol)
               /\ (e.uve \/ (Near(e.uv[1], w[2], tol) /\ Near(e.uv[2], w[1], tol)))
               /\ (RLt(RDiv(1, IF Fl(t) THEN 1024 ELSE 1048576), RMul(o, o)) => ~e.uve)
               /\ RLt(tol, RAbs(w[1])) /\ RLt(tol, RAbs(w[2])) /\ RLt(tol, RAbs(RSub(RAdd(w[1], w[2]), 1))) => (e.trib <=> InClosedTri(a, b, c, d))
       /\ (VEq2(a, d) \/ VEq2(b, d) \/ VEq2(c, d)) => e.trib
       /\ SegOk(t, e, a, b, c, d, e.seg)
       /\ RayOk(t, e, a, b, c, d, e.ray) /\ RayOk(t, e, a, b, c, <<1, 0>>, e.rayh)
       \* the segment c-d against the three sides of the triangle b, a, d
       /\ LET S == {SegOk(t, e, c, d, b, a, TRUE), SegOk(t, e, c, d, a, d, TRUE), SegOk(t, e, c, d, d, b, TRUE)}
              F == {SegOk(t, e, c, d, b, a, FALSE), SegOk(t, e, c, d, a, d, FALSE), SegOk(t, e, c, d, d, b, FALSE)}
          IN IF e.cross THEN TRUE \in S ELSE FALSE \notin F
PolyOk(t, e) ==
    LET P == MOf(e.p) n == Len(P) A == PolyArea2(P)
        am == RSum([i \in 1..n |-> RMul(RAbs(RSub(P[(i % n) + 1][1], P[i][1])), RAdd(RAbs(P[(i % n) + 1][2]), RAbs(P[i][2])))])
    IN /\ Iff(e.ex \/ RLt(RMul(Eps(t), RMul(n, am)), RAbs(A)), e.ccw, RLt(0, A))
       /\ \A k \in 1..2 : /\ \A i \in 1..n : RLe(R(e.lo[k]), P[i][k]) /\ RLe(P[i][k], R(e.hi[k]))
                          /\ \E i \in 1..n : REq(P[i][k], R(e.lo[k]))
                          /\ \E i \in 1..n : REq(P[i][k], R(e.hi[k]))
       /\ \A j \in 1..Len(e.x) :
             LET x == VOf(e.x[j])
                 side(i) == LET a == P[i] b == P[(i % n) + 1] IN Clear(t, e, Orient(a, b, x), RAdd(OrientMag(a, b, x), RMul(RAdd(RAbs(x[1]), RAdd(RAbs(a[1]), RAbs(b[1]))), RAbs(RSub(b[2], a[2])))))
                            /\ (e.ex \/ RLt(RDiv(1, R("1000000000")), RAbs(Orient(a, b, x))))
                 in == InPoly(P, x) \/ OnPoly(P, x)
             IN (\A i \in 1..n : ~VEq2(P[i], P[(i % n) + 1])) /\ (e.ex \/ \A i \in 1..n : side(i)) => (e.in[j] <=> in) /\ (e.in2[j] <=> in)
SpaceOk(t, e) ==
    LET a == VOf(e.a) b == VOf(e.b) c == VOf(e.c) d == VOf(e.d) u == VSub(b, a) v == VSub(c, a) n == Cross3(u, v)
        n2 == RDot(n, n) u2 == RDot(u, u) v2 == RDot(v, v) prod == RMul(u2, v2)
        flat == RLe(n2, RMul(RMul(4096, Eps(t)), prod))
        w == VSub(d, a)
    IN /\ Near(e.area, RDiv(RSqrt(n2), 2), RMul(Eps(t), RMul(4, RSqrt(prod))))
       /\ IF RSign(n2) = 0 THEN \A k \in 1..3 : ~RFin(e.sc[k])
          ELSE flat \/ LET m == VAdd(a, VScale(RDiv(1, RMul(2, n2)), VAdd(VScale(v2, Cross3(n, u)), VScale(u2, Cross3(v, n)))))
                           k2 == RDiv(prod, n2)
                           tol == RMul(Eps(t), RMul(RMul(8, RMul(k2, k2)), RAdd(RSqrt(u2), RAdd(RSqrt(v2), RMaxAbs(a)))))
                       IN \A k \in 1..3 : Near(e.sc[k], m[k], tol)
       /\ flat \/ LET p == RDiv(RSub(RMul(v2, RDot(u, w)), RMul(RDot(u, v), RDot(v, w))), n2)
                      q == RDiv(RSub(RMul(u2, RDot(v, w)), RMul(RDot(u, v), RDot(u, w))), n2)
                      tol == RMul(Eps(t), RMul(16, RDiv(RMul(RAdd(u2, v2), RAdd(RDot(w, w), RAdd(u2, v2))), n2)))
                  IN ~e.uve /\ Near(e.uv[1], p, tol) /\ Near(e.uv[2], q, tol)
       /\ \A k \in 1..3 : REq(R(e.lo[k]), RMin(RMin(a[k], b[k]), RMin(c[k], d[k]))) /\ REq(R(e.hi[k]), RMax(RMax(a[k], b[k]), RMax(c[k], d[k])))
AreaOk(t, e) ==
    LET A == RDiv(RSum([i \in 1..Len(e.f) |-> LET P == MOf(e.f[i]) IN RAbs(Orient(P[1], P[2], P[3]))]), 2)
    IN /\ Near(e.s, A, RMul(Eps(t), RAdd(A, 1))) /\ Near(e.p, A, RMul(Eps(t), RAdd(A, 1))) /\ e.ccw
Allowed(t, o, e) ==
    CASE e.op = "three" -> ThreeOk(t, e)
      [] e.op = "four" -> FourOk(t, e)
      [] e.op = "poly" -> PolyOk(t, e)
      [] e.op = "space" -> SpaceOk(t, e)
      [] e.op = "area" -> AreaOk(t, e)
      [] OTHER -> FALSE
Effect(t, o, e) == o
Init == TraceInit(LAMBDA t : 0)
Next == TraceStep(Allowed, Effect)
=============================================================================
