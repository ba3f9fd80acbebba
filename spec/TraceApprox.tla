---------------------------- MODULE TraceApprox ----------------------------
(***************************************************************************)
(* Conformance of the least-squares fits: an event records the data and    *)
(* the curve (surface) the real code built from them.  A fit is optimal:   *)
(* the gradient of the sum of the squared errors with respect to every     *)
(* free pole vanishes.  Refinement is a behaviour: one knot is added at a  *)
(* time (state: the curves of the chain so far).                           *)
(***************************************************************************)
EXTENDS TraceBase, Fit
Eps(t) == IF t.fl THEN R("1/200") ELSE R("1/100000000")
KTol(t, k) == RMul(IF t.fl THEN R("1/20000") ELSE R("1/100000000000"), RMax(1, RMaxAbs(k)))
Fin(x) == VFin(x.k) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
PointData(us, Q) == [i \in 1..Len(us) |-> [u |-> us[i], d |-> 0, v |-> Q[i]]]

\* the data determine the poles [lo, hi]: an increasing choice of data inside the supports
\* (strictly, away from the ends, by a small margin: no nearly undetermined pole)
Inside(k, p, i, u) ==
    LET w == RMul(R("1/50"), RSub(k[i + p + 1], k[i]))
    IN \/ RLt(RAdd(k[i], w), u) /\ RLt(u, RSub(k[i + p + 1], w))
       \/ REq(u, k[1]) /\ REq(k[i + p], k[1])
       \/ REq(u, k[Len(k)]) /\ REq(k[i + 1], k[Len(k)])
RECURSIVE Choice(_, _, _, _, _, _)
Choice(k, p, us, i, j, hi) ==
    IF i > hi THEN TRUE
    ELSE IF j > Len(us) THEN FALSE
    ELSE IF Inside(k, p, i, us[j]) THEN Choice(k, p, us, i + 1, j + 1, hi)
    ELSE Choice(k, p, us, i, j + 1, hi)
Clamped(k, p) == RLt(k[1], k[p + 2]) /\ RLt(k[Len(k) - p - 1], k[Len(k)])
Determined(k, p, us, fix) ==
    LET n == Len(k) - p - 1
    IN /\ Clamped(k, p)
       /\ IF fix THEN Choice(k, p, us, 2, 2, n - 1) ELSE Choice(k, p, us, 1, 1, n)

\* optimality with the tolerance of a backward stable solution: rows N (sparse sums), data sizes
Grad0(E, N, free, B, eps) ==
    \A i \in free :
        LET J == SelectSeq([j \in 1..Len(N) |-> j], LAMBDA j : ~REq(N[j][i], 0))
            w == RSum([m \in 1..Len(J) |-> RMul(RAbs(N[J[m]][i]), B[J[m]])])
        IN J # <<>> => VNear(GradN([m \in 1..Len(J) |-> E[J[m]]], [m \in 1..Len(J) |-> <<N[J[m]][i]>>], 1, Len(J)),
                             VZero(Len(E[1])), RMul(eps, RMax(R("1/1000"), w)))
OptimalFit(t, c, us, Q, fix) ==
    LET N == TLCEval([j \in 1..Len(us) |-> BasisRow(c.k, c.p, us[j], 0)])
        S == PolesScale(c.P)
        B == [j \in 1..Len(us) |-> RMax(S, RMaxAbs(Q[j]))]
        n == Len(c.P)
    IN Grad0(Errors(c, us, Q), N, IF fix THEN 2..(n - 1) ELSE 1..n, B, Eps(t))
\* the curve of the event: valid, of the degree, over the range of u, ends kept when fixed, optimal
FitOk(t, e, us, Q, fix) ==
    LET c == CurveOf(e.c)
    IN /\ Fin(e.c) /\ ValidCurve(c) /\ c.p = e.p
       /\ RNear(c.k[1], us[1], KTol(t, us)) /\ RNear(c.k[Len(c.k)], us[Len(us)], KTol(t, us))
       /\ fix => VEq(c.P[1], Q[1]) /\ VEq(c.P[Len(c.P)], Q[Len(Q)])
       /\ OptimalFit(t, c, us, Q, fix)
SizesOk(e, nq) == e.n >= e.p + 1 /\ e.n <= nq
\* fits of e.n poles over the knots of the event (or knots of the library's choice)
Lsq(t, e, us, Q) ==
    IF ~SizesOk(e, Len(Q)) THEN e.r = "length_error"
    ELSE /\ e.r = ""
         /\ Len(e.c.P) = e.n
         /\ VFin(e.c.k)
         /\ Has(e, "k") => VEq(e.c.k, e.k)
         /\ LET k == VOf(e.c.k) IN Determined(k, e.p, us, e.fix) => FitOk(t, e, us, Q, e.fix)
\* automatic size: at least the initial number of poles
Auto(t, e, us, Q) ==
    IF ~SizesOk(e, Len(Q)) THEN e.r = "length_error"
    ELSE /\ e.r = "" /\ Len(e.c.P) >= e.n /\ VFin(e.c.k)
         /\ Determined(VOf(e.c.k), e.p, us, e.fix) => FitOk(t, e, us, Q, e.fix)

\* --- refinement ---------------------------------------------------------
Dist(c, u, q) == LET d == VSub(Point(c, u), q) IN RSqrt(RDot(d, d))
Devs(c, us, Q) == TLCEval([j \in 1..Len(us) |-> Dist(c, us[j], Q[j])])
\* points well inside a span of k: at least a third away from its ends; `slack` widens or narrows
Open(k, u, s) ==
    \E i \in 1..(Len(k) - 1) : /\ RLt(k[i], u) /\ RLe(u, k[i + 1])
                               /\ LET w == RMul(RAdd(R("33/100"), s), RSub(k[i + 1], k[i]))
                                  IN RLt(RAdd(k[i], w), u) /\ RLt(u, RSub(k[i + 1], w))
\* index of the inserted knot, or 0: k2 = k1 with one more element
Inserted(k1, k2) == LET S == {i \in 1..Len(k2) : i > Len(k1) \/ ~REq(k1[i], k2[i])} IN CHOOSE i \in S : \A j \in S : i <= j
OneMore(k1, k2) ==
    /\ Len(k2) = Len(k1) + 1
    /\ LET i == Inserted(k1, k2) IN VEq(SubSeq(k2, 1, i - 1) \o SubSeq(k2, i + 1, Len(k2)), k1)
StepTol(t, c) == RMul(IF t.fl THEN R("1/200") ELSE R("1/1000000"), PolesScale(c.P))
MaxAt(D, S) == CHOOSE i \in S : \A j \in S : RLe(D[j], D[i])
\* can c be refined?  TRUE / FALSE / unsure (points within rounding of the limit, or no deviation)
OpenSet(t, c, us, D, s) == {j \in 1..Len(us) : RLt(StepTol(t, c), D[j]) /\ Open(c.k, us[j], s)}
Slack == R("1/10000")
Step(t, o, e) ==
    LET c1 == o[Len(o)].c c2 == CurveOf(e.c)
        us == o[1].us Q == o[1].Q
        D == Devs(c1, us, Q)
        sure == OpenSet(t, c1, us, D, Slack)
    IN /\ Fin(e.c) /\ ValidCurve(c2) /\ c2.p = c1.p
       /\ IF VEq(c2.k, c1.k) THEN (sure = {} \/ Len(c1.P) >= Len(us)) /\ c2.P = c1.P
          ELSE /\ OneMore(c1.k, c2.k)
               /\ LET u == c2.k[Inserted(c1.k, c2.k)]
                  IN \E j \in 1..Len(us) : REq(us[j], u) /\ Open(c1.k, u, RNeg(Slack))
                                           /\ \A m \in sure : RLe(D[m], RAdd(D[j], StepTol(t, c1)))
               /\ Determined(c2.k, c2.p, us, o[1].fix) => FitOk(t, [c |-> e.c, p |-> c1.p], us, Q, o[1].fix)
\* the refinement stopped after m insertions
Refine(t, o, e) ==
    LET c == CurveOf(e.c)
        us == o[1].us Q == o[1].Q
        m == Len(c.P) - Len(o[1].c.P)
        n == Len(us)
        dm == R(e.dmax) da == R(e.davg)
        \* the tolerance was met by the i-th curve of the chain, surely / possibly
        met(i, s) == LET D == Devs(o[i].c, us, Q) tl == RMul(s, StepTol(t, o[i].c))
                     IN RLt(RAdd(RMaxAbs(D), tl), dm) /\ RLt(RAdd(RDiv(RSum(D), n), tl), da)
        stopAt(i, s) == met(i, s) \/ Len(o[i].c.P) + 1 >= n - 5 \* after inserting into the i-th curve
    IN /\ Fin(e.c) /\ m >= 0 /\ m <= e.nmax
       /\ m + 1 <= Len(o)
       /\ VEq(c.k, o[m + 1].c.k)
       /\ \A i \in 1..Len(c.P) : VNear(c.P[i], o[m + 1].c.P[i], StepTol(t, c))
       \* not too late, not too early
       /\ \A i \in 1..(m - 1) : ~stopAt(i, R(1))
       /\ m < e.nmax => \/ m >= 1 /\ stopAt(m, R(-1))
                        \/ Len(c.P) >= n
                        \/ OpenSet(t, o[m + 1].c, us, Devs(o[m + 1].c, us, Q), Slack) = {}

\* --- fits of curves -----------------------------------------------------
AtMany(c) == [h \in 0..12 |-> RAdd(c.k[1], RMul(RDiv(h, 12), RSub(c.k[Len(c.k)], c.k[1])))]
Repro(t, e) ==
    LET s == CurveOf(e.src) c == CurveOf(e.c) A == AtMany(s)
        f(x) == IF e.trf = "id" THEN x ELSE [i \in 1..Len(x) |-> RAdd(RMul(2, x[i]), i)]
    IN /\ e.r = "" /\ Fin(e.c) /\ ValidCurve(c) /\ c.p = e.p
       /\ RNear(c.k[1], s.k[1], KTol(t, s.k)) /\ RNear(c.k[Len(c.k)], s.k[Len(s.k)], KTol(t, s.k))
       /\ \A h \in 0..12 : VNear(Point(c, RMax(c.k[1], RMin(A[h], c.k[Len(c.k)]))), f(Point(s, A[h])), RMul(R("1/1000000"), PolesScale(s.P)))
\* fit with its own parametrization: ends; points of a line stay on it
Reparam(t, e) ==
    IF e.byn /\ e.n < e.p + 1 THEN e.r = "length_error"
    ELSE LET s == CurveOf(e.src) c == CurveOf(e.c) tl == RMul(R("1/1000000"), PolesScale(s.P)) A == AtMany(c)
         IN /\ e.r = "" /\ Fin(e.c) /\ ValidCurve(c) /\ c.p = e.p
            /\ e.byn => Len(c.P) = e.n
            /\ VNear(c.P[1], s.P[1], tl) /\ VNear(c.P[Len(c.P)], s.P[Len(s.P)], tl)
            /\ REq(c.k[1], 0)
            /\ e.line => \A h \in 0..12 : LET x == Point(c, A[h]) IN \A d \in 2..Len(x) : RNear(x[d], RMul(d - 1, x[1]), RMul(10, tl))

\* --- surfaces -----------------------------------------------------------
RowScale(N) == RSum([i \in 1..Len(N) |-> RAbs(N[i])])
Tensor(nu, nv, a, b) == [m \in 1..(Len(a) * Len(b)) |-> RMul(a[((m - 1) % Len(a)) + 1], b[((m - 1) \div Len(a)) + 1])]
SurfOptimal(t, N, P, Q) ==
    LET n == Len(P)
        S == PolesScale(P)
        at(j) == LET J == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~REq(N[j][i], 0))
                 IN GradN([m \in 1..Len(J) |-> P[J[m]]], [m \in 1..Len(J) |-> <<N[j][J[m]]>>], 1, Len(J))
        E == TLCEval([j \in 1..Len(N) |-> VSub(IF RowScale(N[j]) = R(0) \/ REq(RowScale(N[j]), 0) THEN VZero(Len(P[1])) ELSE at(j), Q[j])])
        B == TLCEval([j \in 1..Len(N) |-> RMax(RMul(S, RowScale(N[j])), RMaxAbs(Q[j]))])
    IN Grad0(E, N, 1..n, B, RMul(10, Eps(t)))
SGrid(t, e) ==
    LET us == VOf(e.u) vs == VOf(e.v) ku == VOf(e.ku) kv == VOf(e.kv)
        nu == Len(ku) - e.p - 1 nv == Len(kv) - e.q - 1
    IN IF nu < e.p + 1 \/ nv < e.q + 1 \/ nu * nv > Len(e.Q) THEN e.r = "length_error"
       ELSE /\ e.r = ""
            /\ Len(e.P) = nu * nv
            /\ (Len(e.Q) = Len(us) * Len(vs) /\ Determined(ku, e.p, us, FALSE) /\ Determined(kv, e.q, vs, FALSE)) =>
                 LET Nu == TLCEval([i \in 1..Len(us) |-> BasisRow(ku, e.p, us[i], 0)])
                     Nv == TLCEval([j \in 1..Len(vs) |-> BasisRow(kv, e.q, vs[j], 0)])
                     N == TLCEval([m \in 1..Len(e.Q) |-> Tensor(nu, nv, Nu[((m - 1) % Len(us)) + 1], Nv[((m - 1) \div Len(us)) + 1])])
                 IN (\A i \in 1..Len(e.P) : VFin(e.P[i])) /\ SurfOptimal(t, N, MOf(e.P), MOf(e.Q))
SCstr(t, e) ==
    LET ku == VOf(e.ku) kv == VOf(e.kv)
        nu == Len(ku) - e.p - 1 nv == Len(kv) - e.q - 1
    IN IF nu * nv > Len(e.D) THEN e.r = "length_error"
       ELSE /\ e.r = ""
            /\ LET s == SurfOf(e.c)
                   N == TLCEval([m \in 1..Len(e.D) |-> LET x == e.D[m] IN Tensor(nu, nv, BasisRow(ku, e.p, R(x.u), x.du), BasisRow(kv, e.q, R(x.v), x.dv))])
               IN /\ \A i \in 1..Len(e.c.P) : VFin(e.c.P[i])
                  /\ ValidSurface(s) /\ s.p = e.p /\ s.q = e.q /\ VEq(s.ku, ku) /\ VEq(s.kv, kv)
                  /\ SurfOptimal(t, N, s.P, [m \in 1..Len(e.D) |-> VOf(e.D[m].x)])
ModeU(e) == Parametrization(MOf(e.Q), e.mode, e.ad)
Allowed(t, o, e) ==
    CASE e.op = "lsq" -> Lsq(t, e, VOf(e.u), MOf(e.Q))
      [] e.op = "lsqmode" -> Lsq(t, e, ModeU(e), MOf(e.Q))
      [] e.op = "auto" -> Auto(t, e, VOf(e.u), MOf(e.Q))
      [] e.op = "automode" -> Auto(t, e, ModeU(e), MOf(e.Q))
      [] e.op = "chain0" -> Lsq(t, e, VOf(e.u), MOf(e.Q))
      [] e.op = "chain" -> Step(t, o, e)
      [] e.op = "refine" -> Refine(t, o, e)
      [] e.op = "repro" -> Repro(t, e)
      [] e.op = "reparam" -> Reparam(t, e)
      [] e.op = "sgrid" -> SGrid(t, e)
      [] e.op = "scstr" -> SCstr(t, e)
      [] OTHER -> FALSE
Effect(t, o, e) ==
    CASE e.op = "chain0" -> <<[c |-> CurveOf(e.c), us |-> VOf(e.u), Q |-> MOf(e.Q), fix |-> e.fix]>>
      [] e.op = "chain" -> Append(o, [c |-> CurveOf(e.c), us |-> <<>>, Q |-> <<>>, fix |-> TRUE])
      [] OTHER -> o
Init == TraceInit(LAMBDA t : <<>>)
Next == TraceStep(Allowed, Effect)
=============================================================================
