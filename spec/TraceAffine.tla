---------------------------- MODULE TraceAffine -----------------------------
(***************************************************************************)
(* Conformance of the moves: the state is the geometry as it was recorded, *)
(* the original one, the move composed so far and a bound of the errors    *)
(* made.  Every recorded move changes the poles as Affine.tla says and     *)
(* nothing else; at the end points are those of the composed move.         *)
(***************************************************************************)
EXTENDS TraceBase, Affine
GeoOf(t, c) == IF t.surf THEN SurfOf(c) ELSE CurveOf(c)
Eps(t) == IF t.fl THEN R("1/200000") ELSE R("1/100000000000")
RECURSIVE MaxRow(_, _)
MaxRow(P, n) == IF n = 0 THEN R(0) ELSE RMax(MaxRow(P, n - 1), RMaxAbs(P[n]))
Size(P) == MaxRow(P, Len(P))
\* entries of the move and of what it is made from
MoveSize(e, a) == RMax(RMax(MaxRow(a.m, Len(a.m)), RMaxAbs(a.t)), IF Has(e, "o") THEN RMaxAbs(VOf(e.o)) ELSE IF Has(e, "g") THEN RMax(RMaxAbs(VOf(e.f[1])), RMaxAbs(VOf(e.g[1]))) ELSE R(0))
Bound(s, e, a) == RMul(RAdd(s, 1), RAdd(MoveSize(e, a), 1))
MoveOk(t, o, e) ==
    LET c == GeoOf(t, e.c) a == MoveOf(e, t.d) want == Move(o.g, a) n == t.d
        tol == RMul(Eps(t), Bound(Size(o.g.P), e, a))
    IN /\ IF t.surf THEN VEq(c.ku, o.g.ku) /\ VEq(c.kv, o.g.kv) /\ c.p = o.g.p /\ c.q = o.g.q
          ELSE VEq(c.k, o.g.k) /\ c.p = o.g.p
       /\ c.rat = o.g.rat /\ Len(c.P) = Len(want.P)
       /\ \A i \in 1..Len(c.P) : VNear(c.P[i], want.P[i], tol) /\ (c.rat => REq(c.P[i][n + 1], o.g.P[i][n + 1]))
       /\ (e.copy => Len(e.before) = Len(o.g.P) /\ \A i \in 1..Len(o.g.P) : VEq(VOf(e.before[i]), o.g.P[i]))
\* single points: x, moved in place, moved copy
PointOk(t, e) ==
    LET x == VOf(e.x) a == MoveOf(e, t.d) y == At(a, x) tol == RMul(Eps(t), Bound(RMaxAbs(x), e, a))
    IN VNear(e.in, y, tol) /\ VNear(e.out, y, tol)
HPointOk(t, e) == LET x == VOf(e.x) a == MoveOf(e, t.d) IN VNear(e.in, MovePole(x, a, TRUE), RMul(Eps(t), Bound(RMaxAbs(x), e, a))) /\ REq(R(e.in[t.d + 1]), x[t.d + 1])
Init0(t) == IF Has(t, "c") THEN LET g == GeoOf(t, t.c) IN [g0 |-> g, g |-> g, a |-> Id(t.d), s |-> R(0)] ELSE [g |-> <<>>]
ValTol(t, o) == RMul(RMul(Eps(t), 16), RAdd(RAdd(o.s, Size(o.g.P)), 1))
Allowed(t, o, e) ==
    CASE e.op = "move"  -> MoveOk(t, o, e)
      [] e.op = "point" -> PointOk(t, e)
      [] e.op = "hpoint" -> HPointOk(t, e)
      [] e.op = "val"   -> VNear(e.r, At(o.a, Ders(o.g0, R(e.u), 0)[1]), ValTol(t, o))
      [] e.op = "sval"  -> VNear(e.r, At(o.a, SValue(o.g0, R(e.u), R(e.v), 0, 0)), ValTol(t, o))
      [] OTHER -> FALSE
Effect(t, o, e) ==
    IF e.op # "move" THEN o
    ELSE LET c == GeoOf(t, e.c) a == MoveOf(e, t.d)
         IN TLCEval([o EXCEPT !.g = c, !.a = [m |-> [i \in 1..t.d |-> VApx(Of(a, o.a).m[i])], t |-> VApx(Of(a, o.a).t)], !.s = RApx(RAdd(RMul(RMul(t.d, MaxRow(a.m, t.d)), o.s), Bound(Size(o.g.P), e, a)))])
Init == TraceInit(Init0)
Next == TraceStep(Allowed, Effect)
=============================================================================
