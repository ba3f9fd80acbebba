------------------------------ MODULE Derived ------------------------------
(***************************************************************************)
(* Curves made from other curves.  A derived curve is a record w with a    *)
(* tag w.t; its points and derivatives are a function of those of its      *)
(* parts (Jet), so are its bounds.                                         *)
(*   bs    [c]            a B-spline / NURBS curve                         *)
(*   line  [o, d]         o + u d, d of length one                         *)
(*   circ  [c, z, x]      centre, axis, start (z x a quarter turn later)   *)
(*   rev   [w]            run backwards over the same bounds               *)
(*   trim  [w, a, b]      the part between a and b                         *)
(*   comp  [ws]           one after the other                              *)
(*   ext   [w, cl]        prolonged: constant (cl) or along its ends       *)
(*   rep   [w, f]         w(f(u)), f a function (curve of dimension one)   *)
(*   ons   [w, s]         s(w(u)), w in the plane of the parameters        *)
(*   off2  [w, f]         at distance f(u) on the left                     *)
(*   off3  [w, f, d]      at distance f(u) along d x tangent               *)
(***************************************************************************)
EXTENDS BSpline
Cross(a, b) == IF Len(a) = 2 THEN <<RNeg(b[2]), b[1]>>      \* the axis of the plane against b
               ELSE <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
Norm(a) == RSqrt(RDot(a, a))
Unit(a) == VScale(RDiv(1, Norm(a)), a)
RECURSIVE Bounds(_), CompEnd(_, _)
\* end of the i-th part
CompEnd(w, i) == IF i = 0 THEN Bounds(w.ws[1])[1] ELSE LET b == Bounds(w.ws[i]) IN RAdd(CompEnd(w, i - 1), RSub(b[2], b[1]))
Bounds(w) ==
    CASE w.t = "bs"   -> <<LoU(w.c), HiU(w.c)>>
      [] w.t = "circ" -> <<R(0), RMul(2, RPi)>>
      [] w.t = "trim" -> <<w.a, w.b>>
      [] w.t = "comp" -> <<CompEnd(w, 0), CompEnd(w, Len(w.ws))>>
      [] w.t = "rep"  -> <<LoU(w.f), HiU(w.f)>>
      [] OTHER -> Bounds(w.w)                       \* rev, ons, off; of a prolonged curve: the original
\* the part of a composite curve that u belongs to, u in it
CompAt(w, u) == LET n == Len(w.ws)
                    i == IF \E j \in 1..n : RLt(u, CompEnd(w, j)) THEN CHOOSE j \in 1..n : RLt(u, CompEnd(w, j)) /\ \A k \in 1..(j - 1) : ~RLt(u, CompEnd(w, k)) ELSE n
                IN <<i, RAdd(RSub(u, CompEnd(w, i - 1)), Bounds(w.ws[i])[1])>>
\* derivatives 0..n (n <= 2) of x / |x| from those of x
UnitJet(x) ==
    LET l == Norm(x[1]) n0 == VScale(RDiv(1, l), x[1])
    IN IF Len(x) = 1 THEN <<n0>>
       ELSE LET l1 == RDot(n0, x[2]) n1 == VScale(RDiv(1, l), VSub(x[2], VScale(l1, n0)))
            IN IF Len(x) = 2 THEN <<n0, n1>>
               ELSE LET l2 == RAdd(RDot(n1, x[2]), RDot(n0, x[3]))
                        n2 == VScale(RDiv(1, l), VSub(VSub(x[3], VScale(l2, n0)), VScale(RMul(2, l1), n1)))
                    IN <<n0, n1, n2>>
\* derivatives of f x (a function times a vector), of a curve after a function
RECURSIVE LeibnizN(_, _, _, _)
LeibnizN(f, x, m, i) == LET a == VScale(RMul(Binom(m, i), f[i + 1][1]), x[m - i + 1]) IN IF i = 0 THEN a ELSE VAdd(LeibnizN(f, x, m, i - 1), a)
Leibniz(f, x) == TLCEval([m \in 1..Len(x) |-> LeibnizN(f, x, m - 1, m - 1)])
Chain(C, f) ==
    LET a == <<C[1]>> IN
    IF Len(f) = 1 THEN a
    ELSE LET b == Append(a, VScale(f[2][1], C[2])) IN
         IF Len(f) = 2 THEN b
         ELSE Append(b, VAdd(VScale(f[3][1], C[2]), VScale(RMul(f[2][1], f[2][1]), C[3])))
OnSurf(s, q) ==
    LET u == q[1][1] v == q[1][2] D(i, j) == SValue(s, u, v, i, j) a == <<D(0, 0)>>
    IN IF Len(q) = 1 THEN a
       ELSE LET du == q[2][1] dv == q[2][2] b == Append(a, VAdd(VScale(du, D(1, 0)), VScale(dv, D(0, 1))))
            IN IF Len(q) = 2 THEN b
               ELSE Append(b, VAdd(VAdd(VAdd(VScale(q[3][1], D(1, 0)), VScale(q[3][2], D(0, 1))), VScale(RMul(2, RMul(du, dv)), D(1, 1))),
                                   VAdd(VScale(RMul(du, du), D(2, 0)), VScale(RMul(dv, dv), D(0, 2)))))
RECURSIVE Jet(_, _, _)
\* <<C(u), C'(u), .., C^(n)(u)>>
Jet(w, u, n) ==
    CASE w.t = "bs"   -> Ders(w.c, u, n)
      [] w.t = "line" -> TLCEval([m \in 1..(n + 1) |-> IF m = 1 THEN VAdd(w.o, VScale(u, w.d)) ELSE IF m = 2 THEN w.d ELSE VZero(Len(w.o))])
      [] w.t = "circ" -> LET z == Unit(w.z) y == Cross(z, w.x) c == RCos(u) s == RSin(u)
                             e == VAdd(VScale(c, w.x), VScale(s, y)) h == VAdd(VScale(c, y), VScale(RNeg(s), w.x))
                         IN TLCEval([m \in 1..(n + 1) |-> CASE m = 1 -> VAdd(w.c, e) [] m % 4 = 2 -> h [] m % 4 = 3 -> VScale(-1, e) [] m % 4 = 0 -> VScale(-1, h) [] OTHER -> e])
      [] w.t = "rev"  -> LET b == Bounds(w.w) j == Jet(w.w, RSub(RAdd(b[1], b[2]), u), n)
                         IN TLCEval([m \in 1..(n + 1) |-> IF m % 2 = 0 THEN VScale(-1, j[m]) ELSE j[m]])
      [] w.t = "trim" -> Jet(w.w, u, n)
      [] w.t = "comp" -> LET i == CompAt(w, u) IN Jet(w.ws[i[1]], i[2], n)
      [] w.t = "ext"  -> LET b == Bounds(w.w)
                             e == IF RLt(u, b[1]) THEN b[1] ELSE b[2]
                         IN IF RLe(b[1], u) /\ RLe(u, b[2]) THEN Jet(w.w, u, n)
                            ELSE IF w.cl THEN Jet(w.w, e, n)
                            ELSE LET j == Jet(w.w, e, 1)
                                 IN TLCEval([m \in 1..(n + 1) |-> IF m = 1 THEN VAdd(j[1], VScale(RSub(u, e), j[2])) ELSE IF m = 2 THEN j[2] ELSE VZero(Len(j[1]))])
      [] w.t = "rep"  -> LET f == Ders(w.f, u, n) IN Chain(Jet(w.w, f[1][1], n), f)
      [] w.t = "ons"  -> OnSurf(w.s, Jet(w.w, u, n))
      [] w.t \in {"off2", "off3"} ->
                         LET j == Jet(w.w, u, n + 1)
                             d == IF w.t = "off2" THEN <<R(0), R(0)>> ELSE Unit(w.d)
                             x == TLCEval([m \in 1..(n + 1) |-> Cross(d, j[m + 1])])
                             o == Leibniz(Ders(w.f, u, n), UnitJet(x))
                         IN TLCEval([m \in 1..(n + 1) |-> VAdd(j[m], o[m])])
\* surface of revolution: the curve (axial, radial) turned about the axis [o, z, x]
Revol(w, ax, u, v, du, dv) ==
    LET z == Unit(ax.z) x == Unit(ax.x) y == Cross(z, x) q == Jet(w, u, du)[du + 1]
        c == RCos(v) s == RSin(v)
        e == VAdd(VScale(c, x), VScale(s, y)) h == VAdd(VScale(c, y), VScale(RNeg(s), x))
        a == CASE dv % 4 = 0 -> e [] dv % 4 = 1 -> h [] dv % 4 = 2 -> VScale(-1, e) [] OTHER -> VScale(-1, h)
        p == IF dv = 0 THEN VAdd(VScale(q[1], z), VScale(q[2], a)) ELSE VScale(q[2], a)
    IN IF du = 0 /\ dv = 0 THEN VAdd(ax.o, p) ELSE p
\* no derivative is asked for at u: a knot of a part, a junction, the end of a prolonged curve
RECURSIVE Rough(_, _, _)
Rough(w, u, tol) ==
    CASE w.t = "bs" -> \E i \in (w.c.p + 2)..(Len(w.c.k) - w.c.p - 1) : RLe(RAbs(RSub(w.c.k[i], u)), tol)
      [] w.t \in {"line", "circ"} -> FALSE
      [] w.t = "rev" -> LET b == Bounds(w.w) IN Rough(w.w, RSub(RAdd(b[1], b[2]), u), tol)
      [] w.t = "trim" -> Rough(w.w, u, tol)
      [] w.t = "comp" -> LET i == CompAt(w, u) IN Rough(w.ws[i[1]], i[2], tol) \/ \E j \in 1..(Len(w.ws) - 1) : RLe(RAbs(RSub(u, CompEnd(w, j))), tol)
      [] w.t = "ext" -> LET b == Bounds(w.w) IN RLe(RAbs(RSub(u, b[1])), tol) \/ RLe(RAbs(RSub(u, b[2])), tol) \/ (RLt(b[1], u) /\ RLt(u, b[2]) /\ Rough(w.w, u, tol))
      [] w.t = "rep" -> Rough([t |-> "bs", c |-> w.f], u, tol) \/ Rough(w.w, Point(w.f, u)[1], tol)
      [] w.t = "ons" -> Rough(w.w, u, tol) \/ LET q == Jet(w.w, u, 0)[1] IN
                          \/ \E i \in (w.s.p + 2)..(Len(w.s.ku) - w.s.p - 1) : RLe(RAbs(RSub(w.s.ku[i], q[1])), tol)
                          \/ \E i \in (w.s.q + 2)..(Len(w.s.kv) - w.s.q - 1) : RLe(RAbs(RSub(w.s.kv[i], q[2])), tol)
      [] OTHER -> Rough(w.w, u, tol) \/ Rough([t |-> "bs", c |-> w.f], u, tol)
=============================================================================
