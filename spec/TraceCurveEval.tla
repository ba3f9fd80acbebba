--------------------------- MODULE TraceCurveEval ---------------------------
(***************************************************************************)
(* Conformance of curve evaluation: every way gbs offers to evaluate a     *)
(* B-spline / NURBS curve returns the value BSpline.tla defines.           *)
(* The object under test is immutable in these traces: obj is the curve.   *)
(***************************************************************************)
EXTENDS TraceBase, BSpline

\* rounding error allowed: a few hundred ulps of the largest intermediate quantity
Eps(t) == IF t.fl THEN R("1/20000") ELSE R("1/100000000000")
Tol(t, c, u, d) == RMul(Eps(t), DScale(c, u, d))

\* unit tangent and curvature vector of the curve at u
D1(c, u) == Value(c, u, 1)
UnitTangent(c, u) == LET a == D1(c, u) IN VScale(RDiv(1, RSqrt(RDot(a, a))), a)
ArcD2(c, u) ==
    LET D == Ders(c, u, 2)
        N == RDot(D[2], D[2])
    IN VScale(RDiv(1, RMul(N, N)), VSub(VScale(N, D[3]), VScale(RDot(D[2], D[3]), D[2])))
ArcTol(t, c, u) ==
    LET D == Ders(c, u, 2)
        n == RSqrt(RDot(D[2], D[2]))
        a == RMax(R(1), RDiv(DScale(c, u, 1), n))        \* relative size of C'
        b == RMax(R(1), RDiv(DScale(c, u, 2), RMul(n, n)))   \* and of C''
    IN RMul(RMul(Eps(t), 10), RMul(RMul(a, a), RMul(a, b)))

Init0(t) == IF Has(t, "c") THEN CurveOf(t.c) ELSE [crash |-> TRUE]

Allowed(t, c, e) ==
    CASE e.op = "val"   -> VNear(e.r, Value(c, R(e.u), e.d), Tol(t, c, R(e.u), e.d))
      [] e.op = "vals"  -> /\ Len(e.r) = Len(e.us)
                           /\ \A j \in 1..Len(e.us) : VNear(e.r[j], Value(c, R(e.us[j]), e.d), Tol(t, c, R(e.us[j]), e.d))
      [] e.op = "ders"  -> /\ Len(e.r) = e.n + 1
                           /\ LET D == Ders(c, R(e.u), e.n)
                              IN \A j \in 1..(e.n + 1) : VNear(e.r[j], D[j], Tol(t, c, R(e.u), j - 1))
      [] e.op = "dm"    -> VNear(e.r, UnitTangent(c, R(e.u)), ArcTol(t, c, R(e.u)))
      [] e.op = "dm2"   -> VNear(e.r, ArcD2(c, R(e.u)), ArcTol(t, c, R(e.u)))
      [] e.op = "bounds" -> VEq(e.r, <<LoU(c), HiU(c)>>)
      \* outside the bounds by more than a rounding: the documented exception, nothing else
      [] e.op = "oob"   -> e.r = "domain_error"
      [] OTHER -> FALSE

Init == TraceInit(Init0)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
