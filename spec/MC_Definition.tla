--------------------------- MODULE MC_Definition ---------------------------
(***************************************************************************)
(* Every short sequence of numbers as knots, every number of poles and     *)
(* every degree: what is accepted can be evaluated over [k_(p+1), k_(n+1)],*)
(* what is not accepted lacks a span, poles, or order.  One behaviour per  *)
(* definition: Offered -> Built (accepted) -> edited, or refused.          *)
(***************************************************************************)
EXTENDS Definition
CONSTANTS MaxLen, MaxP
VARIABLES k, np, p, st
vars == <<k, np, p, st>>
Rk(q) == [i \in 1..Len(q) |-> R(q[i])]
Init == /\ \E n \in 2..MaxLen : k \in [1..n -> 0..2]
        /\ np \in 0..(MaxLen - 1) /\ p \in 1..MaxP
        /\ st = "offered"
        \* the definitions replayed into the real constructors: those of about the right size
        /\ (Len(k) - np - p - 1 \in -1..1) => PrintT(<<"SCN", p, np>> \o k)
Crv == [p |-> p, k |-> Rk(k), rat |-> FALSE, P |-> [i \in 1..np |-> <<R(i)>>]]
\* the object in each state (the state itself only keeps integers)
o == CASE st = "built"  -> New(Crv)
       [] st = "poles"  -> SetPole(New(Crv), 1, <<R(7)>>)
       [] st = "knots"  -> SetKnots(New(Crv), [i \in 1..Len(k) |-> RMul(2, k[i])])
       [] st = "part"   -> Restrict(New(Crv), RAdd(LoU(Crv), RDiv(RSub(HiU(Crv), LoU(Crv)), 4)), LoU(Crv))
Build == /\ st = "offered"
         /\ st' = IF Accepts(np, Rk(k), p) THEN "built" ELSE "refused"
         /\ UNCHANGED <<k, np, p>>
Edit == /\ st = "built" /\ st' \in {"poles", "knots", "part"} /\ UNCHANGED <<k, np, p>>
Next == Build \/ Edit
Alive == st \notin {"offered", "refused"}
\* an object that exists always has a valid definition
AlwaysValid == Alive => ValidCurve(o.c) /\ RLe(o.lo, o.hi) /\ Len(o.c.P) = np
\* and, when its range is not empty, can be evaluated at its bounds: a span exists there
Evaluable ==
    Alive =>
        LET a == LoU(o.c) b == HiU(o.c)
        IN RLt(a, b) => \A u \in {a, b, RDiv(RAdd(a, b), 2)} :
              LET s == Span(o.c.k, o.c.p, u) IN s \in (o.c.p + 1)..Len(o.c.P) /\ RLt(o.c.k[s], o.c.k[s + 1])
RefusedOnlyInvalid == st = "refused" => (\E i \in 1..(Len(k) - 1) : k[i] > k[i + 1]) \/ Len(k) # np + p + 1 \/ np < p + 1
=============================================================================
