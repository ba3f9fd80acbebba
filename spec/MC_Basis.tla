------------------------------ MODULE MC_Basis ------------------------------
(***************************************************************************)
(* Exhaustive check of the definitions of BSpline.tla on every clamped     *)
(* knot vector of degree 1..MaxP over the breakpoints 0..4 (interior       *)
(* multiplicities up to p+1), at every half integer, and generation of     *)
(* those knot vectors as scenarios for the harness.                        *)
(***************************************************************************)
EXTENDS BSpline, SequencesExt
CONSTANTS MaxP

VARIABLES p, mult   \* mult[v], v in 1..3: multiplicity of the interior knot v
Rep(x, n) == [i \in 1..n |-> x]
K == Rep(0, p + 1) \o Rep(1, mult[1]) \o Rep(2, mult[2]) \o Rep(3, mult[3]) \o Rep(4, p + 1)
N == Len(K) - p - 1
\* a pole sequence with no special structure
C == [p |-> p, k |-> K, P |-> [i \in 1..N |-> <<((i * i * 7) % 11) - 5, (i * 5) % 7>>], rat |-> FALSE]
CR == [p |-> p, k |-> K, P |-> [i \in 1..N |-> <<((i * i * 7) % 11) - 5, 1 + (i % 3)>>], rat |-> TRUE]
Us == {<<h, 2>> : h \in 0..8}

\* the weights quotient differentiated as a function:  (C w)^(d) = A^(d)   (Leibniz)
Leibniz(u, d) ==
    LET H == [m \in 1..(d + 1) |-> HValue(CR, u, m - 1)]
        D == Ders(CR, u, d)
    IN REq(RSum([i \in 1..(d + 1) |-> RMul(RMul(Binom(d, i - 1), Wgt(H[i])), D[d - i + 2][1])]), H[d + 1][1])

PartitionOfUnity == \A u \in Us : REq(RSum([i \in 1..N |-> Basis(K, i, p, u)]), 1)
Positive == \A u \in Us : \A i \in 1..N : RLe(0, Basis(K, i, p, u))
Support  == \A u \in Us : \A i \in 1..N :
                (RLt(u, K[i]) \/ RLt(K[i + p + 1], u)) => REq(Basis(K, i, p, u), 0)
SpanSupport == \A u \in Us : LET s == Span(K, p, u) IN
                \A i \in 1..N : (i < s - p \/ i > s) => REq(Basis(K, i, p, u), 0)
DerivSums == \A u \in Us : \A d \in 1..p : REq(RSum([i \in 1..N |-> BasisD(K, i, p, u, d)]), 0)
Agree == \A u \in Us : \A d \in 0..(p + 1) : VEq(ValueByBasis(C, u, d), Value(C, u, d))
Quotients == \A u \in Us : \A d \in 0..3 : Leibniz(u, d)
EndPoints == VEq(Point(C, 0), C.P[1]) /\ VEq(Point(C, 4), C.P[N])

Init == p \in 1..MaxP /\ mult \in [1..3 -> 0..(p + 1)]
        /\ PrintT(<<"SCN", p>> \o K)
Next == UNCHANGED <<p, mult>>
=============================================================================
