--------------------------- MODULE TraceCurveEdit ---------------------------
(***************************************************************************)
(* Conformance of sequences of edits applied to one real curve object.     *)
(* After every call the harness records the whole curve; the step from the *)
(* previously recorded curve to this one must be a transition of           *)
(* CurveEdit.tla.  obj.c is the curve, obj.ins the knots known to be       *)
(* removable because this history inserted them.                           *)
(***************************************************************************)
EXTENDS TraceBase, CurveEdit

Eps(t) == IF t.fl THEN R("1/2000") ELSE R("1/1000000000")
MinW(c) == IF ~c.rat THEN R(1)
           ELSE LET n == Len(c.P) IN RDiv(1, RMaxAbs([i \in 1..n |-> RDiv(1, Wgt(c.P[i]))]))
Tol(t, c) == RMul(Eps(t), RDiv(PolesScale(c.P), RMin(1, MinW(c))))
KTol(t, k) == RMul(IF t.fl THEN R("1/100000") ELSE R("1/10000000000000"), RMax(1, RMaxAbs(k)))

Init0(t) == IF Has(t, "c") THEN [c |-> CurveOf(t.c), ins |-> <<>>] ELSE [c |-> <<>>, ins |-> <<>>]

Id(u) == u
Bounds(e, a, b, tol) == VNear(e.c.b, <<a, b>>, tol)
SameBounds(o, e) == VEq(e.c.b, <<LoU(o.c), HiU(o.c)>>)
Knots(e, k, tol) == VNear(e.c.k, k, tol)
Finite(e) == VFin(e.c.k) /\ \A i \in 1..Len(e.c.P) : VFin(e.c.P[i])
Weights(d) == d.rat => \A i \in 1..Len(d.P) : RLt(0, Wgt(d.P[i]))
M(c) == IF c.rat THEN c.p + 2 ELSE c.p + 1

InsCount(ins, u) == IF \E i \in 1..Len(ins) : REq(ins[i][1], u)
                    THEN ins[CHOOSE i \in 1..Len(ins) : REq(ins[i][1], u)][2] ELSE 0
Set(ins, u, n) == Append(SelectSeq(ins, LAMBDA x : ~REq(x[1], u)), <<u, n>>)

RECURSIVE InsertAll(_, _, _)
InsertAll(c, km, i) ==   \* knots only: raise the multiplicity of each to the given one (capped at p)
    IF i > Len(km) THEN c.k
    ELSE LET u == R(km[i][1]) m == km[i][2] - Mult(c.k, u)
         IN InsertAll([c EXCEPT !.k = InsertedKnots(c, u, Max2(0, m))], km, i + 1)

RemOk(t, o, e) ==
    LET u == R(e.u)
        c == o.c
        s == Mult(c.k, u)
        inside == RLt(LoU(c), u) /\ RLt(u, HiU(c))
        j == Len(c.k) - Len(e.c.k)
        d == CurveOf(e.c)
        dev == RMul(e.m, RMul(R(e.tol), RDiv(IF c.rat THEN RMul(4, PolesScale(c.P)) ELSE R(2), RMin(1, MinW(c)))))
    IN /\ j >= 0 /\ j <= e.m /\ j <= s
       /\ ~inside => j = 0
       /\ VEq(e.c.k, DropN(c.k, u, j))
       /\ ValidCurve(d)
       /\ j = 0 => \A i \in 1..Len(c.P) : VEq(d.P[i], c.P[i])
       /\ j > 0 => SameShape(c, d, Id, M(c), RAdd(Tol(t, c), dev))
       \* what this history inserted comes out again
       /\ (inside /\ RLe(RMul(50, Tol(t, c)), e.tol)) => j >= Min2(e.m, InsCount(o.ins, u))

Allowed(t, o, e) ==
    /\ Has(e, "c")
    /\ Finite(e)
    /\ e.c.rat = o.c.rat
    /\ LET c == o.c
           d == CurveOf(e.c)
           same(Phi(_)) == SameShape(c, d, Phi, M(d), Tol(t, c))
       IN /\ ValidCurve(d) /\ Weights(d)
          /\ CASE e.op = "insert" ->
                    /\ d.p = c.p /\ VEq(e.c.k, InsertedKnots(c, R(e.u), e.m))
                    /\ SameBounds(o, e) /\ same(Id)
               [] e.op = "insertkm" ->
                    /\ d.p = c.p /\ VEq(e.c.k, InsertAll(c, e.km, 1))
                    /\ SameBounds(o, e) /\ same(Id)
               \* a parameter outside of the curve is refused and leaves the curve alone
               [] e.op = "insertout" ->
                    /\ d.p = c.p /\ VEq(e.c.k, c.k) /\ \A i \in 1..Len(c.P) : VEq(e.c.P[i], c.P[i])
                    /\ SameBounds(o, e)
               [] e.op = "remove" -> d.p = c.p /\ SameBounds(o, e) /\ RemOk(t, o, e)
               [] e.op = "elevate" ->
                    /\ d.p = c.p + e.t /\ VEq(e.c.k, ElevatedKnots(c, e.t))
                    /\ SameBounds(o, e) /\ same(Id)
               [] e.op = "trim" ->
                    LET a == RMin(e.a, e.b) b == RMax(e.a, e.b)
                    IN /\ d.p = c.p /\ Knots(e, TrimmedKnots(c, a, b), KTol(t, c.k))
                       /\ VEq(e.c.b, <<a, b>>) /\ same(Id)
               [] e.op = "reverse" ->
                    LET Phi(u) == RSub(RAdd(LoU(c), HiU(c)), u)
                    IN /\ d.p = c.p /\ Knots(e, ReversedKnots(c), KTol(t, c.k))
                       /\ SameBounds(o, e) /\ same(Phi)
               [] e.op = "rebound" ->
                    LET a == R(e.a) b == R(e.b)
                        Phi(u) == RMin(HiU(c), RMax(LoU(c), RAdd(LoU(c), RMul(RDiv(RSub(HiU(c), LoU(c)), RSub(b, a)), RSub(u, a)))))
                        k2 == Affine(c.k, a, b)
                    IN /\ d.p = c.p /\ Knots(e, k2, KTol(t, k2))
                       /\ VEq(e.c.b, <<a, b>>)
                       /\ \A i \in 1..Len(c.P) : VEq(d.P[i], c.P[i])
                       /\ REq(d.k[1], a) /\ REq(d.k[Len(d.k)], b)
                       \* knots that were equal stay equal, distinct knots stay distinct
                       /\ \A i \in 1..(Len(c.k) - 1) : REq(c.k[i], c.k[i + 1]) <=> REq(d.k[i], d.k[i + 1])
               [] OTHER -> FALSE

Effect(t, o, e) ==
    LET d == CurveOf(e.c)
    IN [c |-> d,
        ins |-> CASE e.op = "insert" -> Set(o.ins, R(e.u), InsCount(o.ins, R(e.u)) + Len(d.k) - Len(o.c.k))
                  [] e.op = "remove" -> Set(o.ins, R(e.u), Max2(0, InsCount(o.ins, R(e.u)) - (Len(o.c.k) - Len(d.k))))
                  [] e.op \in {"elevate", "insertout"} -> o.ins
                  [] OTHER -> <<>>]

Init == TraceInit(Init0)
Next == TraceStep(Allowed, Effect)
=============================================================================
