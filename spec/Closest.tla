------------------------------ MODULE Closest -------------------------------
(***************************************************************************)
(* Closest points: of a curve or surface to a point, of two curves, of a   *)
(* curve and a surface.  A search starts from given parameters, or from    *)
(* the best of a grid of samples, and goes downhill until the distance     *)
(* grows in both senses of every parameter (or a bound is reached).        *)
(*                                                                         *)
(* Every search is over parameters x (a sequence) in the box B; F(x) is    *)
(* the difference whose length is sought, G(x, i) its derivative by x[i].  *)
(***************************************************************************)
EXTENDS Derived
D2(v) == RDot(v, v)
\* half the slope of the squared distance along parameter i
Slope(F, g) == RDot(F, g)
Inside(x, B) == \A i \in 1..Len(x) : RLe(B[i][1], x[i]) /\ RLe(x[i], B[i][2])
Put(x, i, t) == [x EXCEPT ![i] = t]
\* x is a valley of the distance along parameter i: it grows d away from x on both sides, as far as the box goes.
\* Sl(y) is the slope at y, Tol(y) what is allowed
Valley(x, B, i, d, Sl(_), Tol(_)) ==
    /\ LET a == RSub(x[i], d) y == Put(x, i, a) IN RLe(B[i][1], a) => RLe(Sl(y), Tol(y))
    /\ LET b == RAdd(x[i], d) y == Put(x, i, b) IN RLe(b, B[i][2]) => RLe(RNeg(Tol(y)), Sl(y))
\* the samples of a search: n equal steps over [a, b]
Station(a, b, n, j) == RAdd(a, RMul(RSub(b, a), RDiv(j, n - 1)))
NoFarther(d2, S) == \A s \in S : RLe(d2, D2(s))
CurveBox(c) == <<LoU(c), HiU(c)>>
\* the four searches: difference and derivatives
CP(c, p, x) == VSub(Point(c, x[1]), p)
CPd(c, x, i) == Value(c, x[1], 1)
SP(s, p, x) == VSub(SPoint(s, x[1], x[2]), p)
SPd(s, x, i) == SValue(s, x[1], x[2], IF i = 1 THEN 1 ELSE 0, IF i = 2 THEN 1 ELSE 0)
CC(a, b, x) == VSub(Point(a, x[1]), Point(b, x[2]))
CCd(a, b, x, i) == IF i = 1 THEN Value(a, x[1], 1) ELSE VScale(R(-1), Value(b, x[2], 1))
\* a surface at x[1], x[2] and a curve at x[3]
SC(s, c, x) == VSub(SPoint(s, x[1], x[2]), Point(c, x[3]))
SCd(s, c, x, i) == IF i = 3 THEN VScale(R(-1), Value(c, x[3], 1)) ELSE SPd(s, x, i)
\* where two plane lines [o, d] cross: parameters along unit directions
Det2(a, b) == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
LinesCross(l, m) == LET d == Det2(l.d, m.d) w == VSub(m.o, l.o) IN <<RDiv(Det2(w, m.d), d), RDiv(Det2(w, l.d), d)>>
=============================================================================
