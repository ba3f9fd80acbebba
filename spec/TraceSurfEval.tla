--------------------------- MODULE TraceSurfEval ---------------------------
(***************************************************************************)
(* Conformance of surface evaluation: every public way to evaluate a       *)
(* B-spline / NURBS surface and its partial derivatives.                   *)
(***************************************************************************)
EXTENDS TraceBase, BSpline

Eps(t) == IF t.fl THEN R("1/20000") ELSE R("1/100000000000")
Tol(t, s, u, v, a, b) == RMul(Eps(t), SScale(s, u, v, a, b))
Init0(t) == IF Has(t, "s") THEN SurfOf(t.s) ELSE [crash |-> TRUE]

Val(t, s, r, u, v, a, b) == VNear(r, SValue(s, u, v, a, b), Tol(t, s, u, v, a, b))
Unit(a) == VScale(RDiv(1, RSqrt(RDot(a, a))), a)
ArcD2(d1, d2) == LET N == RDot(d1, d1) IN VScale(RDiv(1, RMul(N, N)), VSub(VScale(N, d2), VScale(RDot(d1, d2), d1)))
\* relative sizes of first and second derivative in direction (a, b), as for curves
ArcTol(t, s, u, v, a, b) ==
    LET d == SValue(s, u, v, a, b)
        n == RSqrt(RDot(d, d))
        x == RMax(R(1), RDiv(SScale(s, u, v, a, b), n))
        y == RMax(R(1), RDiv(SScale(s, u, v, 2 * a, 2 * b), RMul(n, n)))
    IN RMul(RMul(Eps(t), 10), RMul(RMul(x, x), RMul(x, y)))
Allowed(t, s, e) ==
    CASE e.op = "val"  -> Val(t, s, e.r, R(e.u), R(e.v), e.du, e.dv)
      [] e.op = "vals" -> /\ Len(e.r) = Len(e.uv)
                          /\ \A i \in 1..Len(e.uv) : Val(t, s, e.r[i], R(e.uv[i][1]), R(e.uv[i][2]), e.du, e.dv)
      \* table of all mixed derivatives, row major in the U order
      [] e.op = "ders" -> /\ Len(e.r) = (e.nu + 1) * (e.nv + 1)
                          /\ \A a \in 0..e.nu, b \in 0..e.nv :
                               Val(t, s, e.r[a * (e.nv + 1) + b + 1], R(e.u), R(e.v), a, b)
      [] e.op = "tg"   -> LET u == R(e.u) v == R(e.v)
                          IN VNear(e.r, VAdd(VScale(R(e.a), SValue(s, u, v, 1, 0)), VScale(R(e.b), SValue(s, u, v, 0, 1))),
                                   RMul(4, RAdd(RMul(RAbs(R(e.a)), Tol(t, s, u, v, 1, 0)), RMul(RAbs(R(e.b)), Tol(t, s, u, v, 0, 1)))))
      [] e.op = "dm"   -> VNear(e.r, Unit(SValue(s, R(e.u), R(e.v), e.a, e.b)), ArcTol(t, s, R(e.u), R(e.v), e.a, e.b))
      [] e.op = "dm2"  -> VNear(e.r, ArcD2(SValue(s, R(e.u), R(e.v), e.a, e.b), SValue(s, R(e.u), R(e.v), 2 * e.a, 2 * e.b)),
                                ArcTol(t, s, R(e.u), R(e.v), e.a, e.b))
      [] e.op = "bounds" -> VEq(e.r, <<s.ku[1], s.ku[Len(s.ku)], s.kv[1], s.kv[Len(s.kv)]>>)
      \* pole (i, j), row j, column i (0-based), overflowing rows and columns are the last ones
      [] e.op = "pole" -> VEq(e.r, s.P[e.i + 1 + NU(s) * e.j])
      [] e.op = "row"  -> LET j == IF e.j >= NV(s) THEN NV(s) - 1 ELSE e.j
                          IN Len(e.r) = NU(s) /\ \A i \in 1..NU(s) : VEq(e.r[i], s.P[i + NU(s) * j])
      [] e.op = "col"  -> LET i == IF e.i >= NU(s) THEN NU(s) - 1 ELSE e.i
                          IN Len(e.r) = NV(s) /\ \A j \in 1..NV(s) : VEq(e.r[j], s.P[i + 1 + NU(s) * (j - 1)])
      [] e.op = "oobpole" -> e.r = "out_of_range"
      [] e.op = "oob"  -> e.r = "domain_error"
      [] OTHER -> FALSE
Init == TraceInit(Init0)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
