-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Interpolation and least squares: which curve (surface) a set of data    *)
(* denotes.  A datum of a curve is [u, d, v]: the d-th derivative at u is  *)
(* v; of a surface [u, v, du, dv, x].                                      *)
(***************************************************************************)
EXTENDS BSpline

\* the values of all basis functions of order d at u (degree p, knots k)
LocalUnit(p) == [j \in 1..(p + 1) |-> [m \in 1..(p + 1) |-> IF m = j THEN 1 ELSE 0]]
BasisRow(k, p, u, d) ==
    LET s == Span(k, p, u) n == Len(k) - p - 1
        B == IF d > p THEN VZero(p + 1)
             ELSE VApx(LocalEval(SubSeq(k, s - p + 1, s + p), p, LocalUnit(p), u, d))
    IN TLCEval([i \in 1..n |-> IF i >= s - p /\ i <= s THEN B[i - s + p + 1] ELSE R(0)])

\* c satisfies every datum, up to tol(c, datum)
Satisfies(c, D, Tol(_, _)) == \A i \in 1..Len(D) : VNear(Value(c, D[i].u, D[i].d), D[i].v, Tol(c, D[i]))
SSatisfies(s, D, Tol(_, _)) == \A i \in 1..Len(D) : VNear(SValue(s, D[i].u, D[i].v, D[i].du, D[i].dv), D[i].x, Tol(s, D[i]))

\* averaged knots (de Boor): interior knot j is the mean of p consecutive parameters
AveragedKnots(us, p) ==
    LET n == Len(us)
    IN [i \in 1..(n + p + 1) |->
           IF i <= p + 1 THEN us[1] ELSE IF i > n THEN us[n]
           ELSE RDiv(RSum(SubSeq(us, i - p, i - 1)), p)]
\* each breakpoint of us with multiplicity m, the ends p+1 times
MultKnots(us, p, m) ==
    LET n == Len(us)
    IN [i \in 1..(2 * (p + 1) + (n - 2) * m) |->
           IF i <= p + 1 THEN us[1] ELSE IF i > p + 1 + (n - 2) * m THEN us[n]
           ELSE us[2 + (i - p - 2) \div m]]
\* Schoenberg - Whitney for data sorted by (u, d), derivatives at a point consecutive from 0
\* (us: the parameter of each datum)
SW(us, k, p) ==
    /\ RLt(k[1], k[p + 2]) /\ RLt(k[Len(k) - p - 1], k[Len(k)])
    /\ \A i \in 1..Len(us) :
        \/ RLt(k[i], us[i]) /\ RLt(us[i], k[i + p + 1])
        \/ REq(us[i], k[i]) /\ REq(k[i], k[1])
        \/ REq(us[i], k[i + p + 1]) /\ REq(us[i], k[Len(k)])

\* parametrization of points
RECURSIVE CumulS(_, _, _)
CumulS(f, n, acc) == IF Len(acc) > n THEN acc ELSE CumulS(f, n, Append(acc, RAdd(acc[Len(acc)], f[Len(acc)])))
ChordsOf(pts) == [i \in 1..(Len(pts) - 1) |-> LET d == VSub(pts[i + 1], pts[i]) IN RSqrt(RDot(d, d))]
Parametrization(pts, mode, ad) ==
    LET n == Len(pts)
        raw == IF mode = "equal" THEN [i \in 1..n |-> RDiv(i - 1, n - 1)]
               ELSE IF mode = "chord" THEN CumulS(ChordsOf(pts), n - 1, <<R(0)>>)
               ELSE LET ch == ChordsOf(pts) IN CumulS([i \in 1..(n - 1) |-> RSqrt(ch[i])], n - 1, <<R(0)>>)
    IN TLCEval(IF ad THEN VScale(RDiv(1, raw[n]), raw) ELSE raw)

\* Bessel's estimate at the interior points: the derivative of the parabola through three points
Bessel(pts, us, i) ==
    LET d1 == RSub(us[i], us[i - 1]) d2 == RSub(us[i + 1], us[i])
        q1 == VScale(RDiv(1, d1), VSub(pts[i], pts[i - 1]))
        q2 == VScale(RDiv(1, d2), VSub(pts[i + 1], pts[i]))
    IN VLerp(RDiv(d1, RAdd(d1, d2)), q1, q2)

\* at all of them; at the ends the estimate that is exact on parabolas
BesselAll(pts, us) ==
    LET n == Len(us)
        ch(i) == VScale(RDiv(1, RSub(us[i + 1], us[i])), VSub(pts[i + 1], pts[i]))
    IN [i \in 1..n |-> IF i = 1 THEN VSub(VScale(2, ch(1)), Bessel(pts, us, 2))
                       ELSE IF i = n THEN VSub(VScale(2, ch(n - 1)), Bessel(pts, us, n - 1))
                       ELSE Bessel(pts, us, i)]

\* exact solution of the linear system  A x = b  (A: rows, b: rows of vectors); <<>> when singular
RECURSIVE Elim(_, _, _)
FirstPivot(A, c) == LET S == {i \in c..Len(A) : ~REq(A[i][c], 0)}
                    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Elim(A, b, c) ==
    IF c > Len(A) THEN b
    ELSE LET q == FirstPivot(A, c)
         IN IF q = 0 THEN <<>>
            ELSE LET sw(x) == [i \in 1..Len(x) |-> IF i = c THEN x[q] ELSE IF i = q THEN x[c] ELSE x[i]]
                     A1 == sw(A) b1 == sw(b)
                     pr == VScale(RDiv(1, A1[c][c]), A1[c])
                     pb == VScale(RDiv(1, A1[c][c]), b1[c])
                 IN Elim(TLCEval([i \in 1..Len(A) |-> IF i = c THEN pr ELSE VSub(A1[i], VScale(A1[i][c], pr))]),
                         TLCEval([i \in 1..Len(A) |-> IF i = c THEN pb ELSE VSub(b1[i], VScale(A1[i][c], pb))]), c + 1)
SolveExact(A, b) == Elim(A, b, 1)
\* the curve of degree p over knots k denoted by the data
Interpolant(D, k, p) ==
    LET P == SolveExact([i \in 1..Len(D) |-> BasisRow(k, p, D[i].u, D[i].d)], [i \in 1..Len(D) |-> D[i].v])
    IN [p |-> p, k |-> k, P |-> P, rat |-> FALSE]

\* gradient of the sum of the squared errors with respect to pole i (halved)
RECURSIVE GradN(_, _, _, _)
GradN(E, N, i, j) == IF j = 0 THEN VZero(Len(E[1])) ELSE VAdd(GradN(E, N, i, j - 1), VScale(N[j][i], E[j]))
\* E: errors (sequence of vectors), N: basis rows of the data, free: indices of free poles
Optimal(E, N, free, tol) ==
    \A i \in free : LET w == RSum([j \in 1..Len(N) |-> RAbs(N[j][i])]) IN VNear(GradN(E, N, i, Len(E)), VZero(Len(E[1])), RMul(tol, RMax(1, w)))
Errors(c, us, Q) == TLCEval([j \in 1..Len(us) |-> VSub(Value(c, us[j], 0), Q[j])])
\* least squares solution, exactly (MC_Fit)
LeastSquares(us, Q, k, p) ==
    LET N == [j \in 1..Len(us) |-> BasisRow(k, p, us[j], 0)]
        n == Len(k) - p - 1
        A == [i \in 1..n |-> [m \in 1..n |-> RSum([j \in 1..Len(us) |-> RMul(N[j][i], N[j][m])])]]
        b == [i \in 1..n |-> GradN(Q, N, i, Len(us))]
    IN [p |-> p, k |-> k, P |-> SolveExact(A, b), rat |-> FALSE]
SSE(E) == RSum([j \in 1..Len(E) |-> RDot(E[j], E[j])])
=============================================================================
