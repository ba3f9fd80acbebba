------------------------------ MODULE BSpline ------------------------------
(***************************************************************************)
(* What a B-spline / NURBS curve or surface IS: the definitions the rest   *)
(* of the specification (and every conformance check) refers to.           *)
(*                                                                         *)
(* A curve is a record [p, k, P, rat]: degree, flat knot vector (sequence  *)
(* of rationals, 1-based), poles (sequence of vectors) and whether the     *)
(* last coordinate of a pole is a weight (poles are then homogeneous).     *)
(* A surface is [p, q, ku, kv, P, rat], pole (i,j) at P[i + nu*(j-1)].     *)
(*                                                                         *)
(* Two independent definitions of the value of a curve are given: the      *)
(* Cox - de Boor basis recursion (Basis, ValueByBasis) and de Boor's       *)
(* corner cutting (DeBoor, Value).  MC_Basis.tla checks by exhaustive      *)
(* enumeration of small knot vectors that they agree, and the classical    *)
(* facts (partition of unity, positivity, support, derivative sums).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

----------------------------------------------------------------------------
\* Knot vectors

NPoles(c) == Len(c.P)
Nondecreasing(k) == \A i \in 1..(Len(k) - 1) : RLe(k[i], k[i + 1])
\* the definition every BSCurve / BSSurface direction must satisfy
ValidDef(n, k, p) == Nondecreasing(k) /\ Len(k) = n + p + 1 /\ n >= p + 1
ValidCurve(c) == ValidDef(Len(c.P), c.k, c.p)

Mult(k, u) == Cardinality({i \in 1..Len(k) : REq(k[i], u)})

\* Span: index s in p+1..n, k[s] <= u < k[s+1]; the last non empty span is closed
RECURSIVE SpanDown(_, _, _, _)
SpanDown(k, s, p, u) ==
    IF s <= p + 1 THEN p + 1
    ELSE IF RLt(k[s], k[s + 1]) /\ RLe(k[s], u) THEN s
    ELSE SpanDown(k, s - 1, p, u)
Span(k, p, u) == SpanDown(k, Len(k) - p - 1, p, u)

----------------------------------------------------------------------------
\* Cox - de Boor basis functions  (i is 1-based)

RECURSIVE Basis(_, _, _, _)
Basis(k, i, p, u) ==
    IF p = 0
    THEN IF RLe(k[i], u) /\ ( RLt(u, k[i + 1])
                              \/ (REq(u, k[i + 1]) /\ REq(k[i + 1], k[Len(k)]) /\ RLt(k[i], k[i + 1])) )
         THEN R(1) ELSE R(0)
    ELSE LET d1 == RSub(k[i + p], k[i])
             d2 == RSub(k[i + p + 1], k[i + 1])
             a  == IF RLt(0, d1) THEN RMul(RDiv(RSub(u, k[i]), d1), Basis(k, i, p - 1, u)) ELSE R(0)
             b  == IF RLt(0, d2) THEN RMul(RDiv(RSub(k[i + p + 1], u), d2), Basis(k, i + 1, p - 1, u)) ELSE R(0)
         IN RAdd(a, b)

RECURSIVE BasisD(_, _, _, _, _)
BasisD(k, i, p, u, d) ==
    IF d = 0 THEN Basis(k, i, p, u)
    ELSE IF d > p THEN R(0)
    ELSE LET d1 == RSub(k[i + p], k[i])
             d2 == RSub(k[i + p + 1], k[i + 1])
             a  == IF RLt(0, d1) THEN RDiv(BasisD(k, i, p - 1, u, d - 1), d1) ELSE R(0)
             b  == IF RLt(0, d2) THEN RDiv(BasisD(k, i + 1, p - 1, u, d - 1), d2) ELSE R(0)
         IN RMul(p, RSub(a, b))

RECURSIVE WSum(_, _, _)
WSum(w, P, n) == IF n = 1 THEN VScale(w[1], P[1]) ELSE VAdd(WSum(w, P, n - 1), VScale(w[n], P[n]))
ValueByBasis(c, u, d) ==
    LET n == Len(c.P) IN WSum([i \in 1..n |-> BasisD(c.k, i, c.p, u, d)], c.P, n)

----------------------------------------------------------------------------
\* de Boor's algorithm on the p+1 local poles.  kl: the 2p local knots
\* k[s-p+1..s+p];  D: p+1-r+1 points of the current level r.

RECURSIVE CornerCut(_, _, _, _, _)
CornerCut(kl, p, u, r, D) ==
    IF r > p THEN D[1]
    ELSE CornerCut(kl, p, u, r + 1,
            TLCEval([j \in 1..(p - r + 1) |->
                LET lo == kl[r + j - 1]
                    hi == kl[p + j]
                IN VLerp(RDiv(RSub(u, lo), RSub(hi, lo)), D[j], D[j + 1])]))

\* one differentiation of the local polynomial: p poles of degree p-1 on kl minus its ends
LocalDeriv(kl, p, D) ==
    TLCEval([j \in 1..p |-> VScale(RDiv(p, RSub(kl[p + j], kl[j])), VSub(D[j + 1], D[j]))])

RECURSIVE LocalEval(_, _, _, _, _)
LocalEval(kl, p, D, u, d) ==
    IF d = 0 THEN CornerCut(kl, p, u, 1, D)
    ELSE LocalEval(SubSeq(kl, 2, 2 * p - 1), p - 1, LocalDeriv(kl, p, D), u, d - 1)

\* homogeneous value of the d-th derivative at u, from a given span s
HValueAt(c, s, u, d) ==
    IF d > c.p THEN VZero(Len(c.P[1]))
    ELSE VApx(LocalEval(SubSeq(c.k, s - c.p + 1, s + c.p), c.p, SubSeq(c.P, s - c.p, s), u, d))
HValue(c, u, d) == HValueAt(c, Span(c.k, c.p, u), u, d)

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN R(1) ELSE RDiv(RMul(Binom(n - 1, k - 1), n), k)

Euclid(h) == SubSeq(h, 1, Len(h) - 1)
Wgt(h)    == h[Len(h)]

\* derivatives 0..n of  A/w  from those of the homogeneous curve:
\* H = <<H0, .., Hn>>  ->  <<C0, .., Cn>>
RECURSIVE QuotLower(_, _, _, _, _)
QuotLower(H, C, m, i, acc) ==
    IF i > m THEN acc
    ELSE QuotLower(H, C, m, i + 1,
           VSub(acc, VScale(RMul(Binom(m, i), Wgt(H[i + 1])), C[m - i + 1])))
RECURSIVE Quot(_, _, _)
Quot(H, C, m) ==
    IF m >= Len(H) THEN C
    ELSE Quot(H, Append(C, VApx(VScale(RDiv(1, Wgt(H[1])), QuotLower(H, C, m, 1, Euclid(H[m + 1]))))), m + 1)

\* <<C(u), C'(u), ..., C^(n)(u)>>
DersAt(c, s, u, n) ==
    LET H == TLCEval([d \in 1..(n + 1) |-> HValueAt(c, s, u, d - 1)])
    IN IF c.rat THEN Quot(H, <<>>, 0) ELSE H
Ders(c, u, n)  == DersAt(c, Span(c.k, c.p, u), u, n)
Value(c, u, d) == IF c.rat THEN Ders(c, u, d)[d + 1] ELSE HValue(c, u, d)
Point(c, u)    == Value(c, u, 0)

\* Size of the numbers entering the d-th derivative at u, used only to scale the
\* tolerance on recorded floating point results: the largest control coefficient of
\* the d-th derivative of a curve whose poles are as large as those of c.
RECURSIVE MaxAbsRows(_, _, _)
MaxAbsRows(P, n, acc) == IF n = 0 THEN acc ELSE MaxAbsRows(P, n - 1, RMax(acc, RMaxAbs(P[n])))
PolesScale(P) == MaxAbsRows(P, Len(P), R(1))
RECURSIVE LocalScaleRec(_, _, _, _)
LocalScaleRec(kl, p, D, d) ==
    IF d = 0 \/ p = 0 THEN PolesScale(D)
    ELSE RMax(PolesScale(D), LocalScaleRec(SubSeq(kl, 2, 2 * p - 1), p - 1, LocalDeriv(kl, p, D), d - 1))
UnitScale(k, s, p, d) ==
    LocalScaleRec(SubSeq(k, s - p + 1, s + p), p,
                  [j \in 1..(p + 1) |-> <<IF j % 2 = 1 THEN R(1) ELSE R(-1)>>], d)
HScale(c, u, d) ==
    LET s == Span(c.k, c.p, u)
    IN RMul(PolesScale(SubSeq(c.P, s - c.p, s)), UnitScale(c.k, s, c.p, d))
\* the same through the quotient rule: S_m = (h_m + sum C(m,i) h_i S_(m-i)) / w
RECURSIVE QuotScale(_, _, _, _)
QuotScale(h, w, S, m) ==
    IF m >= Len(h) THEN S
    ELSE QuotScale(h, w, Append(S,
            RApx(RDiv(RAdd(h[m + 1], RSum([i \in 1..m |-> RMul(RMul(Binom(m, i), h[i + 1]), S[m - i + 1])])), w))), m + 1)
DScale(c, u, d) ==
    IF ~c.rat THEN HScale(c, u, d)
    ELSE QuotScale(TLCEval([m \in 1..(d + 1) |-> HScale(c, u, m - 1)]), RAbs(Wgt(HValue(c, u, 0))), <<>>, 0)[d + 1]

----------------------------------------------------------------------------
\* Surfaces

NU(s) == Len(s.ku) - s.p - 1
NV(s) == Len(s.kv) - s.q - 1
ValidSurface(s) == /\ ValidDef(NU(s), s.ku, s.p)
                   /\ ValidDef(NV(s), s.kv, s.q)
                   /\ Len(s.P) = NU(s) * NV(s)
\* homogeneous mixed derivative (du, dv): collapse the q+1 local rows in u, then v
SHValue(s, u, v, du, dv) ==
    IF du > s.p \/ dv > s.q THEN VZero(Len(s.P[1]))
    ELSE LET nu == NU(s)
             su == Span(s.ku, s.p, u)
             sv == Span(s.kv, s.q, v)
             kl == SubSeq(s.ku, su - s.p + 1, su + s.p)
             rows == TLCEval([j \in 1..(s.q + 1) |->
                        LET o == nu * (sv - s.q + j - 2)
                        IN VApx(LocalEval(kl, s.p, SubSeq(s.P, o + su - s.p, o + su), u, du))])
         IN VApx(LocalEval(SubSeq(s.kv, sv - s.q + 1, sv + s.q), s.q, rows, v, dv))

\* table of Euclidean mixed derivatives up to (nu, nv): T[a+1][b+1]
RECURSIVE SQuotTerm(_, _, _, _, _, _, _)
\* sum over (i,j) /= (0,0), i<=a, j<=b of C(a,i)C(b,j) w^(i,j) S^(a-i,b-j)
SQuotTerm(H, C, a, b, i, j, acc) ==
    IF i > a THEN acc
    ELSE IF j > b THEN SQuotTerm(H, C, a, b, i + 1, 0, acc)
    ELSE IF i = 0 /\ j = 0 THEN SQuotTerm(H, C, a, b, 0, 1, acc)
    ELSE SQuotTerm(H, C, a, b, i, j + 1,
            VAdd(acc, VScale(RMul(RMul(Binom(a, i), Binom(b, j)), Wgt(H[i + 1][j + 1])), C[<<a - i, b - j>>])))
RECURSIVE SQuot(_, _, _, _, _)
SQuot(H, C, a, b, nb) ==
    IF a >= Len(H) THEN C
    ELSE IF b > nb THEN SQuot(H, C, a + 1, 0, nb)
    ELSE LET e == Euclid(H[a + 1][b + 1])
             v == VApx(VScale(RDiv(1, Wgt(H[1][1])), VSub(e, SQuotTerm(H, C, a, b, 0, 0, VZero(Len(e))))))
         IN SQuot(H, (<<a, b>> :> v) @@ C, a, b + 1, nb)
\* S^(du,dv)(u,v)
SValue(s, u, v, du, dv) ==
    IF ~s.rat THEN SHValue(s, u, v, du, dv)
    ELSE LET H == TLCEval([a \in 1..(du + 1) |-> TLCEval([b \in 1..(dv + 1) |-> SHValue(s, u, v, a - 1, b - 1)])])
         IN SQuot(H, <<>>, 0, 0, dv)[<<du, dv>>]
SPoint(s, u, v) == SValue(s, u, v, 0, 0)
\* tolerance scale, as for curves (the quotient rule bounded by its largest terms)
SHScale(s, u, v, du, dv) ==
    RMul(PolesScale(s.P), RMul(UnitScale(s.ku, Span(s.ku, s.p, u), s.p, du), UnitScale(s.kv, Span(s.kv, s.q, v), s.q, dv)))
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN R(1) ELSE RMul(a, RPow(a, n - 1))
RECURSIVE SQScaleTerm(_, _, _, _, _, _, _)
SQScaleTerm(h, S, a, b, i, j, acc) ==
    IF i > a THEN acc
    ELSE IF j > b THEN SQScaleTerm(h, S, a, b, i + 1, 0, acc)
    ELSE IF i = 0 /\ j = 0 THEN SQScaleTerm(h, S, a, b, 0, 1, acc)
    ELSE SQScaleTerm(h, S, a, b, i, j + 1,
            RAdd(acc, RMul(RMul(RMul(Binom(a, i), Binom(b, j)), h[i + 1][j + 1]), S[<<a - i, b - j>>])))
RECURSIVE SQScale(_, _, _, _, _, _)
SQScale(h, w, S, a, b, nb) ==
    IF a >= Len(h) THEN S
    ELSE IF b > nb THEN SQScale(h, w, S, a + 1, 0, nb)
    ELSE SQScale(h, w, (<<a, b>> :> RApx(RDiv(RAdd(h[a + 1][b + 1], SQScaleTerm(h, S, a, b, 0, 0, R(0))), w))) @@ S, a, b + 1, nb)
SScale(s, u, v, du, dv) ==
    IF ~s.rat THEN SHScale(s, u, v, du, dv)
    ELSE SQScale(TLCEval([a \in 1..(du + 1) |-> TLCEval([b \in 1..(dv + 1) |-> SHScale(s, u, v, a - 1, b - 1)])]),
                 RAbs(Wgt(SHValue(s, u, v, 0, 0))), <<>>, 0, 0, dv)[<<du, dv>>]

----------------------------------------------------------------------------
\* Records of a trace -> curves

CurveOf(r) == [p |-> r.p, k |-> VOf(r.k), P |-> MOf(r.P), rat |-> r.rat]
SurfOf(r)  == [p |-> r.p, q |-> r.q, ku |-> VOf(r.ku), kv |-> VOf(r.kv), P |-> MOf(r.P), rat |-> r.rat]
LoU(c) == c.k[c.p + 1]
HiU(c) == c.k[Len(c.k) - c.p]
=============================================================================
