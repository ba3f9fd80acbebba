----------------------------- MODULE Definition -----------------------------
(***************************************************************************)
(* Which definitions are B-splines, and the life of one curve object: its  *)
(* poles and knots may be replaced (by ones of the same number), it may be *)
(* restricted to a part of its range, and it is evaluated within its       *)
(* bounds only.  State: [c: curve, lo, hi: bounds].                        *)
(***************************************************************************)
EXTENDS BSpline
\* the definition accepted by every constructor
Accepts(np, k, p) == ValidDef(np, k, p)
AcceptsS(np, ku, kv, p, q) ==
    /\ Len(ku) - p - 1 > 0 /\ Len(kv) - q - 1 > 0
    /\ np = (Len(ku) - p - 1) * (Len(kv) - q - 1)
    /\ ValidDef(Len(ku) - p - 1, ku, p) /\ ValidDef(Len(kv) - q - 1, kv, q)

New(c) == [c |-> c, lo |-> c.k[1], hi |-> c.k[Len(c.k)]]
InBounds(s, u, eps) == RLe(RSub(s.lo, eps), u) /\ RLe(u, RAdd(s.hi, eps))
SetPoles(s, P)   == [s EXCEPT !.c = [s.c EXCEPT !.P = P]]
SetPole(s, i, v) == SetPoles(s, [j \in 1..Len(s.c.P) |-> IF j = i THEN v ELSE s.c.P[j]])
SetKnots(s, k)   == New([s.c EXCEPT !.k = k])
Restrict(s, a, b) == [s EXCEPT !.lo = RMin(a, b), !.hi = RMax(a, b)]
CanSetPoles(s, P) == Len(P) = Len(s.c.P)
CanSetKnots(s, k) == Len(k) = Len(s.c.k)
=============================================================================
