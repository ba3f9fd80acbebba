----------------------------- MODULE MC_Derived -----------------------------
(***************************************************************************)
(* Every way to stack derivations on small polynomial curves: the jets of  *)
(* Derived.tla are the derivatives of its points (five point formulas,     *)
(* exact up to degree 4), bounds are where the curve is, laws of each      *)
(* derivation.  The stacks are the scenarios replayed on the real code.    *)
(***************************************************************************)
EXTENDS Derived
CONSTANTS Depth
VARIABLES w, ops
Bz(P, a, b) == [p |-> Len(P) - 1, k |-> [i \in 1..(2 * Len(P)) |-> IF i <= Len(P) THEN R(a) ELSE R(b)], P |-> [i \in 1..Len(P) |-> VOf(P[i])], rat |-> FALSE]
Q2 == Bz(<<<<0, 0>>, <<1, 2>>, <<3, -1>>>>, 0, 2)               \* a quadratic over [0,2]
L2 == Bz(<<<<3, 4>>, <<0, 0>>>>, 1, 3)                          \* a segment over [1,3]
Fn == Bz(<<<<0>>, <<"1/2">>, <<2>>>>, 0, 1)                     \* a function from [0,1] onto [0,2]
Fo == Bz(<<<<1>>, <<3>>>>, 0, 2)
Sf == [p |-> 1, q |-> 1, ku |-> VOf(<<-9, -9, 9, 9>>), kv |-> VOf(<<-9, -9, 9, 9>>), P |-> MOf(<<<<0, 0, 0>>, <<1, 0, 2>>, <<0, 3, 1>>, <<2, 1, -4>>>>), rat |-> FALSE]
Bs(c) == [t |-> "bs", c |-> c]
Init == \E c \in {"q", "l"} : w = Bs(IF c = "q" THEN Q2 ELSE L2) /\ ops = <<c>>
B == Bounds(w)
HasT(x) == \E i \in 1..Len(ops) : ops[i] \in x
Step(o, x) == w' = x /\ ops' = Append(ops, o) /\ PrintT(<<"SCN">> \o ops')
Plane2 == ~HasT({"ons"})
Next == /\ Len(ops) <= Depth
        /\ ~HasT({"extl", "extc"})
        /\ \/ Step("rev", [t |-> "rev", w |-> w])
           \/ Step("trim", [t |-> "trim", w |-> w, a |-> RAdd(B[1], RDiv(RSub(B[2], B[1]), 4)), b |-> RSub(B[2], RDiv(RSub(B[2], B[1]), 8))])
           \/ Plane2 /\ \E c \in {Q2, L2} : Step(IF c = Q2 THEN "compq" ELSE "compl", [t |-> "comp", ws |-> <<w, Bs(c)>>])
           \/ Plane2 /\ Step("precomp", [t |-> "comp", ws |-> <<Bs(L2), w, Bs(Q2)>>])
           \/ Step("extl", [t |-> "ext", w |-> w, cl |-> FALSE])
           \/ Step("extc", [t |-> "ext", w |-> w, cl |-> TRUE])
           \/ ~HasT({"rep", "ons", "off2"}) /\ Step("rep", [t |-> "rep", w |-> w, f |-> [Fn EXCEPT !.P = MOf(<<<<B[1]>>, <<RAdd(B[1], RDiv(RSub(B[2], B[1]), 4))>>, <<B[2]>>>>)]])
           \/ ~HasT({"rep", "ons", "off2"}) /\ Step("ons", [t |-> "ons", w |-> w, s |-> Sf])
           \/ ~HasT({"rep", "ons", "off2"}) /\ Step("off2", [t |-> "off2", w |-> w, f |-> [Fo EXCEPT !.k = <<B[1], B[1], B[2], B[2]>>]])
Us == {RAdd(B[1], RMul(RSub(B[2], B[1]), RDiv(i, 7))) : i \in 1..6} \cup (IF HasT({"extl", "extc"}) THEN {RSub(B[1], 1), RAdd(B[2], 2)} ELSE {})
H == R("1/1000000")
X(u) == Jet(w, u, 0)[1]
Exact == ~HasT({"off2"})
\* derivatives are those of the points
Derivatives == \A u \in Us : ~Rough(w, u, RMul(3, H)) /\ ~HasT({"extc"}) =>
    LET j == Jet(w, u, 2) a == X(RSub(u, RMul(2, H))) b == X(RSub(u, H)) c == X(u) d == X(RAdd(u, H)) e == X(RAdd(u, RMul(2, H)))
        f1 == [i \in 1..Len(c) |-> RDiv(RAdd(RSub(a[i], e[i]), RMul(8, RSub(d[i], b[i]))), RMul(12, H))]
        f2 == [i \in 1..Len(c) |-> RDiv(RSub(RAdd(RMul(16, RAdd(b[i], d[i])), RMul(-30, c[i])), RAdd(a[i], e[i])), RMul(12, RMul(H, H)))]
        tol == IF Exact THEN R(0) ELSE R("1/1000000000")
    IN VNear(j[2], f1, tol) /\ VNear(j[3], f2, tol)
RevLaw == LET r == [t |-> "rev", w |-> w] IN ~HasT({"extl", "extc"}) =>
    /\ VEq(Bounds(r), B)
    /\ \A u \in Us : VEq(Jet([t |-> "rev", w |-> r], u, 0)[1], X(u))
    /\ VEq(Jet(r, B[1], 0)[1], X(B[2])) /\ VEq(Jet(r, B[2], 0)[1], X(B[1]))
ExtLaw == HasT({"extl", "extc"}) => \A u \in Us :
    /\ RLe(B[1], u) /\ RLe(u, B[2]) => VEq(X(u), Jet(w.w, u, 0)[1])
    /\ RLt(u, B[1]) /\ w.cl => VEq(X(u), Jet(w.w, B[1], 0)[1])
CompLaw == w.t = "comp" => /\ VEq(X(B[1]), Jet(w.ws[1], Bounds(w.ws[1])[1], 0)[1])
                           /\ LET l == w.ws[Len(w.ws)] IN VEq(X(B[2]), Jet(l, Bounds(l)[2], 0)[1])
                           /\ \A i \in 2..Len(w.ws) : VEq(X(CompEnd(w, i - 1)), Jet(w.ws[i], Bounds(w.ws[i])[1], 0)[1])
OffLaw == w.t = "off2" => \A u \in Us : LET j == Jet(w.w, u, 1) d == VSub(X(u), j[1]) f == Point(w.f, u)[1] IN
                           RNear(RDot(d, j[2]), R(0), R("1/1000000000000")) /\ RNear(RDot(d, d), RMul(f, f), R("1/1000000000000")) /\ RLt(0, RSub(RMul(j[2][1], d[2]), RMul(j[2][2], d[1])))
=============================================================================
