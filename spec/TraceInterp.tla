---------------------------- MODULE TraceInterp ----------------------------
(***************************************************************************)
(* Conformance of the interpolating curves: every event records the data   *)
(* and the curve the real code built from them.                            *)
(***************************************************************************)
EXTENDS TraceBase, Fit
Eps(t) == IF t.fl THEN R("1/500") ELSE R("1/1000000000")
KTol(t, k) == RMul(IF t.fl THEN R("1/20000") ELSE R("1/100000000000"), RMax(1, RMaxAbs(k)))
\* the residual of a backward stable solution is small against poles times basis values
Tol(t, c, x) ==
    LET s == Span(c.k, c.p, x.u)
        range == RMax(1, RMax(RAbs(c.k[1]), RAbs(c.k[Len(c.k)])))
        next == IF x.d < c.p THEN RMul(range, UnitScale(c.k, s, c.p, x.d + 1)) ELSE R(0)
    IN RMul(RMul(Eps(t), RMax(PolesScale(c.P), RMaxAbs(x.v))), RAdd(IF x.d > c.p THEN R(1) ELSE UnitScale(c.k, s, c.p, x.d), RMul(R("1/10000"), next)))
Fin(x) == VFin(x.k) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
\* c: recorded curve, D: data, k: expected knots
Fits(t, e, D, k, p) ==
    LET c == CurveOf(e.c)
    IN /\ Fin(e.c) /\ ValidCurve(c) /\ c.p = p
       /\ VNear(e.c.k, k, KTol(t, k))
       /\ VEq(e.c.b, <<c.k[1], c.k[Len(c.k)]>>)
       /\ Satisfies(c, D, LAMBDA a, x : Tol(t, a, x))
PointData(us, Q) == [i \in 1..Len(us) |-> [u |-> us[i], d |-> 0, v |-> Q[i]]]
OfData(D) == TLCEval([i \in 1..Len(D) |-> [u |-> R(D[i].u), d |-> D[i].d, v |-> VOf(D[i].v)]])
\* sorted by (u, d)
Before(a, b) == RLt(a.u, b.u) \/ (REq(a.u, b.u) /\ a.d < b.d)
RECURSIVE InsD(_, _)
InsD(x, S) == IF S = <<>> THEN <<x>> ELSE IF Before(x, S[1]) THEN <<x>> \o S ELSE <<S[1]>> \o InsD(x, Tail(S))
RECURSIVE SortD(_, _)
SortD(D, i) == IF i > Len(D) THEN <<>> ELSE InsD(D[i], SortD(D, i + 1))
\* derivatives at each parameter consecutive from 0
Hermitian(S) == \A i \in 1..Len(S) : S[i].d = 0 \/ (i > 1 /\ REq(S[i - 1].u, S[i].u) /\ S[i - 1].d = S[i].d - 1)
Solvable(S, k, p) == Hermitian(S) /\ SW([i \in 1..Len(S) |-> S[i].u], k, p)
\* all the data of a Hermite problem (nc values per point), Q as recorded
RECURSIVE HermiteData(_, _, _, _)
HermiteData(us, Q, nc, i) ==
    IF i = 0 THEN <<>> ELSE HermiteData(us, Q, nc, i - 1) \o [d \in 1..nc |-> [u |-> us[i], d |-> d - 1, v |-> Q[i][d]]]
HermOk(t, e, us) ==
    LET Q == TLCEval([i \in 1..Len(e.Q) |-> MOf(e.Q[i])])
        n == Len(Q)
        nc == e.nc
        dim == Len(Q[1][1])
        top == [i \in 1..n |-> Q[i][nc]]
        m == IF e.add THEN nc + 1 ELSE nc
        extra == IF ~e.add THEN <<>>
                 ELSE [i \in 1..n |-> [u |-> us[i], d |-> nc, v |-> IF i \in {1, n} THEN VZero(dim) ELSE Bessel(top, us, i)]]
        p == 2 * m - 1
    IN Fits(t, e, HermiteData(us, Q, nc, n) \o extra, MultKnots(us, p, m), p)
\* the distinct knots of the recorded curve
RECURSIVE DistinctK(_, _)
DistinctK(k, i) == IF i = 1 THEN <<R(k[1])>> ELSE LET d == DistinctK(k, i - 1) IN IF REq(k[i], k[i - 1]) THEN d ELSE Append(d, R(k[i]))
Allowed(t, o, e) ==
    CASE e.op = "ptsu" -> LET us == VOf(e.u) IN Fits(t, e, PointData(us, MOf(e.Q)), AveragedKnots(us, e.p), e.p)
      [] e.op = "pts" ->
            LET Q == MOf(e.Q) us == Parametrization(Q, e.mode, TRUE)
            IN Fits(t, e, PointData(us, Q), AveragedKnots(us, e.p), e.p)
      [] e.op = "herm" -> HermOk(t, e, VOf(e.u))
      [] e.op = "hermmode" ->
            LET us == DistinctK(e.c.k, Len(e.c.k))
                w == Parametrization([i \in 1..Len(e.Q) |-> VOf(e.Q[i][1])], e.mode, FALSE)
            IN VFin(e.c.k) /\ VNear(us, w, KTol(t, w)) /\ HermOk(t, e, us)
      [] e.op = "cpt" ->
            LET D == OfData(e.D) S == SortD(D, 1) k == VOf(e.k)
            IN Solvable(S, k, e.p) => Fits(t, e, D, k, e.p)
      [] e.op = "bc" ->
            LET D == OfData(e.D) S == SortD(D, 1) us == [i \in 1..Len(S) |-> S[i].u]
            IN IF Len(D) < e.p + 1 THEN e.r = "invalid_argument"
               ELSE /\ e.r = ""
                    /\ LET k == AveragedKnots(us, e.p) IN Solvable(S, k, e.p) => Fits(t, e, D, k, e.p)
      \* Bessel tangents: exact on parabolas
      [] e.op = "tgvec" ->
            LET Q == MOf(e.Q) us == VOf(e.u) n == Len(us) D == BesselAll(Q, us)
            IN Len(e.r) = n /\ \A i \in 1..n : VNear(e.r[i], D[i], RMul(Eps(t), RMax(1, PolesScale(D))))
      [] e.op = "tgdir" ->
            LET Q == MOf(e.Q) us == VOf(e.u) n == Len(us)
                q(i) == VSub(Q[i + 1], Q[i])
                a(i) == RDiv(RSub(us[i], us[i - 1]), RSub(us[i + 1], us[i - 1]))
                in(i) == VLerp(a(i), q(i - 1), q(i))
                V(i) == IF i = 1 THEN VSub(VScale(2, q(1)), in(2)) ELSE IF i = n THEN VSub(VScale(2, q(n - 1)), in(n - 1)) ELSE in(i)
            IN Len(e.r) = n /\ \A i \in 1..n : LET v == V(i) l == RSqrt(RDot(v, v))
                                               IN RLt(R("1/1000000"), l) => VNear(e.r[i], VScale(RDiv(1, l), v), RDiv(RMul(Eps(t), RMax(1, PolesScale(Q))), l))
      [] e.op = "few" -> (e.r = "domain_error") <=> (e.p >= e.n)
      [] OTHER -> FALSE
Init == TraceInit(LAMBDA t : <<>>)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
