--------------------------- MODULE TraceSurfEdit ---------------------------
(***************************************************************************)
(* Conformance of sequences of edits applied to one real surface object.   *)
(* dir = 0: in U, dir = 1: in V.                                           *)
(***************************************************************************)
EXTENDS TraceBase, SurfEdit

Eps(t) == IF t.fl THEN R("1/2000") ELSE R("1/1000000000")
Tol(t, s) == RMul(Eps(t), PolesScale(s.P))
KTol(t, k) == RMul(IF t.fl THEN R("1/100000") ELSE R("1/10000000000000"), RMax(1, RMaxAbs(k)))
Init0(t) == IF Has(t, "s") THEN SurfOf(t.s) ELSE <<>>
Finite(x) == VFin(x.ku) /\ VFin(x.kv) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])

\* every homogeneous row of d is that of s, at Phi(u)
SameRows(t, s, d, Phi(_)) ==
    /\ NV(d) = NV(s)
    /\ \A j \in 1..NV(s) : SameShape(Row(s, j), Row(d, j), Phi, d.p + 1, Tol(t, s))
\* s -> d in direction U, with a, b the recorded arguments; bd = recorded bounds in that direction
Step(t, s, d, e, bd) ==
    /\ d.q = s.q /\ VEq(d.kv, s.kv)
    /\ CASE e.op = "insert" ->
               /\ d.p = s.p /\ VEq(d.ku, InsertedKnots(Row(s, 1), R(e.a), e.m)) /\ VEq(bd, <<SLo(s), SHi(s)>>)
               /\ SameRows(t, s, d, LAMBDA u : u)
         [] e.op = "insertout" ->
               /\ d.p = s.p /\ VEq(d.ku, s.ku) /\ VEq(bd, <<SLo(s), SHi(s)>>)
               /\ \A i \in 1..Len(s.P) : VEq(s.P[i], d.P[i])
         [] e.op = "elevate" ->
               /\ d.p = s.p + 1 /\ VEq(d.ku, ElevatedKnots(Row(s, 1), 1)) /\ VEq(bd, <<SLo(s), SHi(s)>>)
               /\ SameRows(t, s, d, LAMBDA u : u)
         [] e.op = "trim" ->
               LET a == RMin(e.a, e.b) b == RMax(e.a, e.b)
               IN /\ d.p = s.p /\ VNear(d.ku, TrimmedKnots(Row(s, 1), a, b), KTol(t, s.ku)) /\ VEq(bd, <<a, b>>)
                  /\ SameRows(t, s, d, LAMBDA u : u)
         [] e.op = "reverse" ->
               LET lo == SLo(s) hi == SHi(s)
               IN /\ d.p = s.p /\ VNear(d.ku, ReversedKnots(Row(s, 1)), KTol(t, s.ku)) /\ VEq(bd, <<lo, hi>>)
                  /\ SameRows(t, s, d, LAMBDA u : RMin(hi, RMax(lo, RSub(RAdd(lo, hi), u))))
         [] e.op = "rebound" ->
               LET a == R(e.a) b == R(e.b) k2 == Affine(s.ku, a, b)
               IN /\ d.p = s.p /\ VNear(d.ku, k2, KTol(t, k2)) /\ VEq(bd, <<a, b>>)
                  /\ REq(d.ku[1], a) /\ REq(d.ku[Len(d.ku)], b)
                  /\ \A i \in 1..(Len(s.ku) - 1) : REq(s.ku[i], s.ku[i + 1]) <=> REq(d.ku[i], d.ku[i + 1])
                  /\ \A i \in 1..Len(s.P) : VEq(s.P[i], d.P[i])
         [] OTHER -> FALSE

\* an iso curve is a valid curve over the other direction, lying on the surface
IsoOk(t, s, e) ==
    LET x == IF e.dir = 0 THEN Transpose(s) ELSE s     \* isoV of x
        c == CurveOf(e.c)
        w == IsoV(x, R(e.a))
        ws == IF s.rat THEN RDiv(PolesScale(s.P), RMin(1, RDiv(1, RMaxAbs([i \in 1..Len(s.P) |-> RDiv(1, Wgt(s.P[i]))])))) ELSE PolesScale(s.P)
    IN /\ VFin(e.c.k) /\ (\A i \in 1..Len(e.c.P) : VFin(e.c.P[i])) /\ ValidCurve(c)
       /\ VEq(e.c.b, <<SLo(x), SHi(x)>>)
       /\ SameShape(w, c, LAMBDA u : u, c.p + 1, RMul(Eps(t), ws))

Allowed(t, s, e) ==
    CASE e.op = "iso" -> IsoOk(t, s, e)
      [] e.op = "isooob" -> e.r = "domain_error"
      [] OTHER ->
         /\ Finite(e.s) /\ e.s.rat = s.rat
         /\ LET d == SurfOf(e.s) b == e.s.b
            IN /\ ValidSurface(d)
               /\ VEq(b, SBounds(d))
               /\ IF e.op = "invert"
                  THEN LET x == Transpose(s) IN d.p = x.p /\ d.q = x.q /\ VEq(d.ku, x.ku) /\ VEq(d.kv, x.kv)
                                                /\ \A i \in 1..Len(x.P) : VEq(d.P[i], x.P[i])
                  ELSE IF e.dir = 0 THEN Step(t, s, d, e, <<b[1], b[2]>>)
                  ELSE Step(t, Transpose(s), Transpose(d), e, <<b[3], b[4]>>)
Effect(t, s, e) == IF Has(e, "s") THEN SurfOf(e.s) ELSE s
Init == TraceInit(Init0)
Next == TraceStep(Allowed, Effect)
=============================================================================
