-------------------------- MODULE TraceDefinition --------------------------
(***************************************************************************)
(* Conformance of constructors, replacement of poles and knots, and bounds *)
(* of evaluation.  State of a "life" trace: the object of Definition.tla;  *)
(* of a "slife" trace: the surface.                                        *)
(***************************************************************************)
EXTENDS TraceBase, Definition
KEps(t) == IF t.fl THEN R("1.1920928955078125e-05") ELSE R("2.2204460492503131e-14")
Eps(t) == IF t.fl THEN R("1/5000") ELSE R("1/10000000000")
MinW(P, rat) == IF ~rat THEN R(1) ELSE RMin(1, RDiv(1, RMaxAbs([i \in 1..Len(P) |-> RDiv(1, Wgt(P[i]))])))
Init0(t) == CASE t.kind = "life" -> New(CurveOf(t.c))
              [] t.kind = "slife" -> SurfOf(t.s)
              [] OTHER -> <<>>
SamePoles(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VEq(A[i], B[i])
\* the recorded curve is the object o
Is(o, r) == /\ r.p = o.c.p /\ VEq(r.k, o.c.k) /\ SamePoles(r.P, o.c.P) /\ VEq(r.b, <<o.lo, o.hi>>)
IsS(s, r) == /\ r.p = s.p /\ r.q = s.q /\ VEq(r.ku, s.ku) /\ VEq(r.kv, s.kv) /\ SamePoles(r.P, s.P)
             /\ VEq(r.b, <<s.ku[1], s.ku[Len(s.ku)], s.kv[1], s.kv[Len(s.kv)]>>)
\* what the event makes of the object
After(o, e) ==
    CASE e.op = "poles" /\ CanSetPoles(o, e.P) -> SetPoles(o, MOf(e.P))
      [] e.op = "knots" /\ CanSetKnots(o, e.k) -> SetKnots(o, VOf(e.k))
      [] e.op = "setpole" /\ e.i < Len(o.c.P) -> SetPole(o, e.i + 1, VOf(e.v))
      [] e.op = "restrict" -> Restrict(o, R(e.a), R(e.b))
      [] OTHER -> o
RECURSIVE Flat(_, _, _)
Flat(kk, mm, i) == IF i > Len(kk) THEN <<>> ELSE [j \in 1..mm[i] |-> R(kk[i])] \o Flat(kk, mm, i + 1)
LifeOk(t, o, e) ==
    /\ Is(After(o, e), e.c)
    /\ CASE e.op = "poles" -> e.r = IF CanSetPoles(o, e.P) THEN "" ELSE "length_error"
         [] e.op = "knots" -> e.r = IF CanSetKnots(o, e.k) THEN "" ELSE "length_error"
         [] e.op = "setpole" -> e.r = IF e.i < Len(o.c.P) THEN "" ELSE "out_of_range"
         [] e.op = "pole" -> IF e.i < Len(o.c.P) THEN e.r = "" /\ VEq(e.v, o.c.P[e.i + 1]) ELSE e.r = "out_of_range"
         [] e.op \in {"restrict", "copy"} -> TRUE
         [] e.op = "kmult" ->
              /\ e.order = o.c.p + 1 /\ Len(e.kk) = Len(e.mm)
              /\ \A i \in 1..(Len(e.kk) - 1) : RLt(e.kk[i], e.kk[i + 1])
              /\ VNear(Flat(e.kk, e.mm, 1), o.c.k, KEps(t))
         [] e.op = "eval" ->
              IF InBounds(o, R(e.u), KEps(t))
              THEN /\ e.r = ""
                   /\ VNear(e.v, Value(o.c, R(e.u), e.d), RMul(Eps(t), DScale(o.c, R(e.u), e.d)))
              ELSE e.r = "domain_error"
         [] OTHER -> FALSE
SAfter(s, e) ==
    CASE e.op = "spoles" /\ Len(e.P) = Len(s.P) -> [s EXCEPT !.P = MOf(e.P)]
      [] e.op = "ssetpole" /\ e.i < NU(s) /\ e.j < NV(s) ->
            [s EXCEPT !.P = [n \in 1..Len(s.P) |-> IF n = 1 + e.i + NU(s) * e.j THEN VOf(e.v) ELSE s.P[n]]]
      [] OTHER -> s
Within(u, k, eps) == RLe(RSub(k[1], eps), u) /\ RLe(u, RAdd(k[Len(k)], eps))
SLifeOk(t, s, e) ==
    /\ IsS(SAfter(s, e), e.s)
    /\ CASE e.op = "spoles" -> e.r = IF Len(e.P) = Len(s.P) THEN "" ELSE "length_error"
         [] e.op = "ssetpole" -> e.r = IF e.i < NU(s) /\ e.j < NV(s) THEN "" ELSE "out_of_range"
         [] e.op = "scopy" -> TRUE
         [] e.op = "seval" ->
              IF Within(R(e.u), s.ku, KEps(t)) /\ Within(R(e.v), s.kv, KEps(t))
              THEN /\ e.r = ""
                   /\ VNear(e.x, SValue(s, R(e.u), R(e.v), e.du, e.dv), RMul(Eps(t), SScale(s, R(e.u), R(e.v), e.du, e.dv)))
              ELSE e.r = "domain_error"
         [] OTHER -> FALSE
Homog(P, w) == [i \in 1..Len(P) |-> VScale(w[i], P[i]) \o <<w[i]>>]
NearPoles(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], tol)
WTol(t, P) == RMul(IF t.fl THEN R("1/1000000") ELSE R("1/100000000000000"), RMul(4, PolesScale(P)))
OtherOk(t, e) ==
    CASE e.op = "def" -> e.r = IF Accepts(e.np, VOf(e.k), e.p) THEN "" ELSE "invalid_argument"
      [] e.op = "sdef" -> e.r = IF AcceptsS(e.np, VOf(e.ku), VOf(e.kv), e.p, e.q) THEN "" ELSE "invalid_argument"
      [] e.op = "weights" ->
            LET P == MOf(e.P) w == VOf(e.w)
            IN /\ e.c.p = e.p /\ VEq(e.c.k, VOf(e.k)) /\ NearPoles(e.c.P, Homog(P, w), WTol(t, Homog(P, w)))
               /\ VEq(e.ww, w) /\ NearPoles(e.pp, P, WTol(t, P))
      [] e.op = "sweights" ->
            LET P == MOf(e.P) w == VOf(e.w)
            IN /\ e.s.p = e.p /\ e.s.q = 1 /\ VEq(e.s.ku, VOf(e.k)) /\ VEq(e.s.kv, VOf(e.kv)) /\ NearPoles(e.s.P, Homog(P, w), WTol(t, Homog(P, w)))
               /\ VEq(e.ww, w) /\ NearPoles(e.pp, P, WTol(t, P))
      [] e.op = "badw" -> e.r = "length_error"
      [] OTHER -> FALSE
Allowed(t, o, e) ==
    CASE t.kind = "life" -> LifeOk(t, o, e)
      [] t.kind = "slife" -> SLifeOk(t, o, e)
      [] OTHER -> OtherOk(t, e)
Effect(t, o, e) ==
    CASE t.kind = "life" -> After(o, e)
      [] t.kind = "slife" -> SAfter(o, e)
      [] OTHER -> o
Init == TraceInit(Init0)
Next == TraceStep(Allowed, Effect)
=============================================================================
