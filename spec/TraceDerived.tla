---------------------------- MODULE TraceDerived ----------------------------
(***************************************************************************)
(* Conformance of the curves made from other curves and of the surfaces of *)
(* revolution: the recorded points and derivatives are those Derived.tla   *)
(* defines from the parts.                                                 *)
(***************************************************************************)
EXTENDS TraceBase, Derived
RECURSIVE WOf(_)
WOf(r) ==
    CASE r.t = "bs"   -> [t |-> "bs", c |-> CurveOf(r.c)]
      [] r.t = "line" -> [t |-> "line", o |-> VOf(r.o), d |-> VOf(r.d)]
      [] r.t = "circ" -> [t |-> "circ", c |-> VOf(r.c), z |-> VOf(r.z), x |-> VOf(r.x)]
      [] r.t = "rev"  -> [t |-> "rev", w |-> WOf(r.w)]
      [] r.t = "trim" -> [t |-> "trim", w |-> WOf(r.w), a |-> R(r.a), b |-> R(r.b)]
      [] r.t = "comp" -> [t |-> "comp", ws |-> TLCEval([i \in 1..Len(r.ws) |-> WOf(r.ws[i])])]
      [] r.t = "ext"  -> [t |-> "ext", w |-> WOf(r.w), cl |-> r.cl]
      [] r.t = "rep"  -> [t |-> "rep", w |-> WOf(r.w), f |-> CurveOf(r.f)]
      [] r.t = "ons"  -> [t |-> "ons", w |-> WOf(r.w), s |-> SurfOf(r.s)]
      [] r.t = "off2" -> [t |-> "off2", w |-> WOf(r.w), f |-> CurveOf(r.f)]
      [] r.t = "off3" -> [t |-> "off3", w |-> WOf(r.w), f |-> CurveOf(r.f), d |-> VOf(r.d)]
Eps(t) == IF t.fl THEN R("1/20000") ELSE R("1/10000000000")
\* sizes of the numbers behind derivatives 0..n
RECURSIVE Mag(_, _, _)
MagChain(M, f) == [m \in 1..Len(f) |-> CASE m = 1 -> RAdd(M[1], RMul(f[1], M[2]))
                                         [] m = 2 -> RMul(RAdd(M[2], RMul(f[1], M[3])), f[2])
                                         [] OTHER -> RAdd(RMul(RAdd(M[2], RMul(f[1], M[3])), f[3]), RMul(RMul(f[2], f[2]), RAdd(M[3], RMul(f[1], M[4]))))]
Mag(w, u, n) ==
    CASE w.t = "bs"   -> TLCEval([m \in 1..(n + 1) |-> DScale(w.c, u, m - 1)])
      [] w.t = "line" -> [m \in 1..(n + 1) |-> RAdd(RMaxAbs(w.o), RAdd(RAbs(u), 1))]
      [] w.t = "circ" -> [m \in 1..(n + 1) |-> RMul(RAdd(1, RAbs(u)), RAdd(RMaxAbs(w.c), RMul(2, RMaxAbs(w.x))))]
      [] w.t = "rev"  -> LET b == Bounds(w.w) IN Mag(w.w, RSub(RAdd(b[1], b[2]), u), n)
      [] w.t = "trim" -> Mag(w.w, u, n)
      [] w.t = "comp" -> LET i == CompAt(w, u) IN Mag(w.ws[i[1]], i[2], n)
      [] w.t = "ext"  -> LET b == Bounds(w.w) e == IF RLt(u, b[1]) THEN b[1] ELSE IF RLt(b[2], u) THEN b[2] ELSE u
                             M == Mag(w.w, e, IF n = 0 THEN 1 ELSE n)
                         IN [m \in 1..(n + 1) |-> IF m = 1 THEN RAdd(M[1], RMul(RAbs(RSub(u, e)), M[2])) ELSE M[m]]
      [] w.t = "rep"  -> MagChain(Mag(w.w, Point(w.f, u)[1], n + 1), TLCEval([m \in 1..(n + 1) |-> DScale(w.f, u, m - 1)]))
      [] w.t = "ons"  -> LET q == Jet(w.w, u, 0)[1] M == Mag(w.w, u, n) S(a, b) == SScale(w.s, q[1], q[2], a, b)
                             \* growth of the surface against an error of its parameters
                             G == [d \in 1..4 |-> RSum([i \in 1..d |-> S(i - 1, d - i)])]
                         IN MagChain(G, M)
      [] OTHER        -> LET M == Mag(w.w, u, n + 1) l == Norm(IF w.t = "off2" THEN Jet(w.w, u, 1)[2] ELSE Cross(Unit(w.d), Jet(w.w, u, 1)[2]))
                             a == RSum([m \in 1..(n + 1) |-> RDiv(M[m + 1], l)]) F == RSum([m \in 1..(n + 1) |-> DScale(w.f, u, m - 1)])
                         IN [m \in 1..(n + 1) |-> RAdd(M[m], RMul(RMul(F, 8), RMul(IF m = 1 THEN R(1) ELSE IF m = 2 THEN a ELSE RMul(a, a), a)))]
RECURSIVE HasKind(_, _)
HasKind(w, k) == \/ w.t \in k
                 \/ (w.t = "comp" /\ \E i \in 1..Len(w.ws) : HasKind(w.ws[i], k))
                 \/ (w.t \notin {"bs", "line", "circ", "comp"} /\ HasKind(w.w, k))
\* the tangent is too short for a normal
RECURSIVE Flat(_, _)
Flat(w, u) ==
    CASE w.t \in {"off2", "off3"} -> LET j == Jet(w.w, u, 1)[2] x == IF w.t = "off2" THEN j ELSE Cross(Unit(w.d), j) IN RLt(Norm(x), RMul(R("1/100"), Mag(w.w, u, 1)[2]))
      [] w.t = "comp" -> LET i == CompAt(w, u) IN Flat(w.ws[i[1]], i[2])
      [] w.t = "rev" -> LET b == Bounds(w.w) IN Flat(w.w, RSub(RAdd(b[1], b[2]), u))
      [] w.t = "trim" -> Flat(w.w, u)
      [] w.t = "ext" -> LET b == Bounds(w.w) IN Flat(w.w, IF RLt(u, b[1]) THEN b[1] ELSE IF RLt(b[2], u) THEN b[2] ELSE u)
      [] OTHER -> FALSE
ValOk(t, w, e) ==
    LET u == R(e.u) n == Len(e.r) - 1 near == IF t.fl THEN R("1/5000") ELSE R("1/100000000")
    IN \* at a discontinuity of a composed curve the parameter has to be exact
       \/ (HasKind(w, {"rep"}) \/ t.fl) /\ HasKind(w, {"comp"}) /\ Rough(w, u, near)
       \* a normal needs a tangent of its own
       \/ HasKind(w, {"off2", "off3"}) /\ (Flat(w, u) \/ Rough(w, u, near))
       \/ LET j == Jet(w, u, n) M == Mag(w, u, n) k == IF Rough(w, u, near) THEN 1 ELSE n + 1
          IN \A m \in 1..k : VNear(e.r[m], j[m], RMul(Eps(t), RAdd(M[m], 1)))
Big == R("1000000000000000000000000000000")
NoBounds(b) == RLe(R(b[1]), RNeg(Big)) /\ RLe(Big, R(b[2]))
BTol(t) == IF t.fl THEN R("1/50000") ELSE R("1/1000000000000")
PtsOk(t, w, e) == \A i \in 1..Len(e.p) :
    LET u == R(e.p[i].u) j == Jet(w, u, Len(e.p[i].r) - 1) M == Mag(w, u, 4)
    IN \A m \in 1..Len(j) : VNear(e.p[i].r[m], j[m], RMul(Eps(t), M[m]))
CircleOk(t, e) ==
    LET w == WOf(e.w) r == R(e.rr) tol == RMul(Eps(t), RAdd(1, r))
    IN /\ RNear(e.R, r, tol) /\ VNear(e.b, <<R(0), RMul(2, RPi)>>, RMul(8, BTol(t)))
       /\ VEq(w.c, VOf(e.C)) /\ (e.op = "circle" => VEq(w.z, VOf(e.Z)))
       /\ RNear(Norm(w.x), r, tol)
       /\ (e.op = "circle" => RNear(RDot(w.x, Unit(w.z)), R(0), tol))
       /\ (e.op = "circle" /\ Len(e.X) > 0 => VNear(Unit(w.x), Unit(VOf(e.X)), Eps(t)))
       /\ (e.op = "circle2" => RNear(w.x[2], R(0), tol) /\ RLt(0, w.x[1]))
       /\ PtsOk(t, w, e)
LineOk(t, e) ==
    LET w == WOf(e.w) IN /\ VNear(w.d, Unit(VSub(VOf(e.q), VOf(e.p0))), Eps(t)) /\ VEq(w.o, VOf(e.p0)) /\ NoBounds(e.b) /\ PtsOk(t, w, e)
Init0(t) == IF Has(t, "w") THEN WOf(t.w) ELSE <<>>
Allowed(t, w, e) ==
    CASE e.op = "val" -> ValOk(t, w, e)
      [] e.op = "bounds" -> VNear(e.r, Bounds(w), BTol(t))
      [] e.op = "nobounds" -> NoBounds(e.r)
      [] e.op = "ends" -> e.ext \/ (ValOk(t, w, [u |-> Bounds(w)[1], r |-> <<e.r[1]>>]) /\ ValOk(t, w, [u |-> Bounds(w)[2], r |-> <<e.r[2]>>]))
      [] e.op = "oob" -> e.r = "domain_error"
      [] e.op \in {"circle", "circle2"} -> CircleOk(t, e)
      [] e.op = "line" -> LineOk(t, e)
      [] e.op = "sbounds" -> VNear(e.r, IF e.full THEN <<R(e.a[1]), R(e.a[2]), R(0), RMul(2, RPi)>> ELSE VOf(e.a), RMul(8, BTol(t)))
      [] e.op = "sval" -> LET ax == [o |-> VOf(t.o), z |-> VOf(t.z), x |-> VOf(t.x)] u == R(e.u)
                          IN \/ e.du > 0 /\ Rough(w, u, IF t.fl THEN R("1/5000") ELSE R("1/100000000"))
                             \/ VNear(e.r, Revol(w, ax, u, R(e.v), e.du, e.dv), RMul(Eps(t), RAdd(RMaxAbs(ax.o), RMul(10, Mag(w, u, e.du)[e.du + 1]))))
      [] OTHER -> FALSE
Effect(t, o, e) == o
Init == TraceInit(Init0)
Next == TraceStep(Allowed, Effect)
=============================================================================
