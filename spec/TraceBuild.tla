----------------------------- MODULE TraceBuild -----------------------------
(***************************************************************************)
(* Conformance of the builders: segments, ellipses, derivative and         *)
(* integral curves, lofts, Gordon surfaces (property C19).                 *)
(***************************************************************************)
EXTENDS TraceBase, Build
Tiny == R("1/10000000000")
Scale(P) == RMax(1, PolesScale(P))
Fin(x) == VFin(x.ku) /\ VFin(x.kv) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
CFin(x) == VFin(x.k) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
Near(a, b, tol) == Len(a) = Len(b) /\ VNear(a, b, tol)
SameCurve(r, c, tol) == r.p = c.p /\ Near(r.k, c.k, tol) /\ Len(r.P) = Len(c.P) /\ \A i \in 1..Len(c.P) : Near(r.P[i], c.P[i], RMul(tol, Scale(c.P)))
\* where to compare: the knots of the surface, points between them
Abscissae(k) == LET D == DistinctKnots(k) n == Len(D) IN {D[i] : i \in 1..n} \cup {RDiv(RAdd(RMul(2, D[i]), D[i + 1]), 3) : i \in 1..(n - 1)}
SurfBounds(s) == <<s.ku[1], s.ku[Len(s.ku)], s.kv[1], s.kv[Len(s.kv)]>>
Sections(e) == [i \in 1..Len(e.secs) |-> CurveOf(e.secs[i])]
UpK(cs) == LET m == MaxDegree(cs, Len(cs)) IN [i \in 1..Len(cs) |-> UpKnots(cs[i], m - cs[i].p)]
Well(s, e) == Fin(e) /\ ValidSurface(s) /\ VEq(e.b, SurfBounds(s))
\* the parameters of the sections
AutoParams(cs) == LoftParams(Unify(cs))
SpineParams(e, s) == \* stations of an approximated loft, on the range of the surface
    LET t == VOf(e.tg) n == Len(t) lo == s.kv[1] hi == s.kv[Len(s.kv)]
    IN [j \in 1..n |-> RAdd(lo, RMul(RSub(hi, lo), RDiv(RSub(t[j], t[1]), RSub(t[n], t[1]))))]
Increasing(v) == \A j \in 1..(Len(v) - 1) : RLt(RAdd(v[j], R("1/100")), v[j + 1])
PassesIn(s, cs, v, Us, x) == LET m == TLCEval(RMul(x, Scale(s.P))) IN Passes(s, cs, v, Us, LAMBDA a, b : m)
\* parallel to and in the sense of d
Along(a, d) == LET aa == RDot(a, a) dd == RDot(d, d) ad == RDot(a, d)
               IN RLt(0, ad) /\ RLe(RMul(RMul(aa, dd), RSub(1, R("1/1000000"))), RMul(ad, ad))
LoftOk(t, e) ==
    LET cs == TLCEval(Sections(e)) n == Len(cs) s == SurfOf(e.s)
        q == Min2(e.q, n - 1)
        ku == CommonKnots(UpK(cs))
        m == e.m
        tol == R("1/1000000000")
    IN /\ e.x = "" /\ Well(s, e.s) /\ s.rat = e.rat
       /\ s.p = MaxDegree(cs, n) /\ s.q = q
       /\ Near(s.ku, ku, Tiny)
       /\ LET Us == Abscissae(s.ku) IN
          CASE m \in {"v", "flat", "list", "ptr"} ->
                  LET v == VOf(e.v) IN
                  /\ Near(s.kv, IF m = "flat" THEN VOf(e.kv) ELSE AveragedKnots(v, q), Tiny)
                  /\ PassesIn(s, cs, v, Us, tol)
            [] m = "auto" ->
                  LET v == AutoParams(cs) IN
                  /\ Near(s.kv, AveragedKnots(v, q), Tiny)
                  /\ PassesIn(s, cs, v, Us, R("1/100000000"))
            [] m = "spine" ->
                  LET v == AutoParams(cs) sp == CurveOf(e.sp) tg == VOf(e.tg) IN
                  /\ Near(s.kv, AveragedKnots(Doubled(v), q), Tiny)
                  /\ PassesIn(s, cs, v, Us, R("1/10000000"))
                  /\ \A j \in 1..n : \A u \in Us : Along(SValue(s, u, v[j], 0, 1), Value(sp, tg[j], 1))
            [] m = "approx" ->
                  LET v == SpineParams(e, s) IN
                  Increasing(v) /\ SW(v, s.kv, q) => PassesIn(s, cs, v, Us, R("1/10000000"))
            [] OTHER -> FALSE
GordonOk(t, e) ==
    IF ~e.cross THEN e.x = "invalid_argument"
    ELSE LET s == SurfOf(e.s) cu == [i \in 1..Len(e.cu) |-> CurveOf(e.cu[i])] cv == [i \in 1..Len(e.cv) |-> CurveOf(e.cv[i])]
             U == VOf(e.U) V == VOf(e.V) tol == R("1/1000000") m == RMul(tol, Scale(s.P))
         IN /\ e.x = "" /\ Well(s, e.s)
            /\ \A j \in 1..Len(V) : \A u \in Abscissae(s.ku) : VNear(SPoint(s, u, V[j]), Point(cu[j], u), m)
            /\ \A i \in 1..Len(U) : \A v \in Abscissae(s.kv) : VNear(SPoint(s, U[i], v), Point(cv[i], v), m)
EllipseOk(e) ==
    LET c == VOf(e.c) r1 == R(e.r1) r2 == R(e.r2) n == Len(e.us) d == Len(c)
        E == CurveOf(e.e) r == MOf(e.r)
        X(i) == VSub(r[i], c)
        M == RMul(Tiny, RAdd(RMaxAbs(c), RMax(r1, r2)))
    IN /\ CFin(e.e) /\ ValidCurve(E) /\ E.p = 2 /\ REq(LoU(E), 0) /\ REq(HiU(E), 1)
       /\ \A i \in 1..n : /\ RNear(RAdd(RMul(RDiv(X(i)[1], r1), RDiv(X(i)[1], r1)), RMul(RDiv(X(i)[2], r2), RDiv(X(i)[2], r2))), R(1), RMul(Tiny, RMax(1, RDiv(RMaxAbs(c), RMin(r1, r2)))))
                          /\ \A x \in 3..d : RNear(X(i)[x], R(0), M)
                          \* once round, counter-clockwise
                          /\ i < n => RLt(0, RSub(RMul(X(i)[1], X(i + 1)[2]), RMul(X(i)[2], X(i + 1)[1])))
       /\ \A i \in 1..4 : LET u == (i - 1) * 4 + 1 Q == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
                          IN RNear(X(u)[1], RMul(Q[i][1], r1), M) /\ RNear(X(u)[2], RMul(Q[i][2], r2), M)
       /\ VNear(r[n], r[1], M)
SegmentOk(e) ==
    LET a == VOf(e.a) b == VOf(e.b) d == VSub(b, a) hi == IF e.n THEN R(1) ELSE RSqrt(RDot(d, d)) c == CurveOf(e.c) g == Segment(a, b, hi)
    IN CFin(e.c) /\ ValidCurve(c) /\ SameCurve(c, g, RMul(Tiny, RMax(1, hi)))
CTol(c) == RMul(Tiny, RMax(1, RMaxAbs(c.k)))
Allowed(t, o, e) ==
    CASE e.op = "loft"    -> LoftOk(t, e)
      [] e.op = "gordon"  -> GordonOk(t, e)
      [] e.op = "segment" -> SegmentOk(e)
      [] e.op = "ellipse" -> EllipseOk(e)
      [] e.op = "der"     -> LET c == CurveOf(e.c) IN CFin(e.r) /\ SameCurve(CurveOf(e.r), DerivativeOf(c), CTol(c))
      [] e.op = "int"     -> LET c == CurveOf(e.c) IN CFin(e.r) /\ SameCurve(CurveOf(e.r), IntegralOf(c, VOf(e.x)), CTol(c))
      [] e.op = "refuse"  -> e.x = e.want
      [] OTHER -> FALSE
Init == TraceInit(LAMBDA t : <<>>)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
