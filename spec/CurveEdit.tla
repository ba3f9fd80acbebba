----------------------------- MODULE CurveEdit -----------------------------
(***************************************************************************)
(* Editing a B-spline / NURBS curve: the state is a curve (BSpline.tla),   *)
(* the transitions are the editing operations of gbs.  Each operation is   *)
(* given twice:                                                            *)
(*  - what it does to degree and knots (InsertedKnots, ElevatedKnots, ...) *)
(*    together with the map Phi from the new parameter to the old one;     *)
(*    the contract is  NewCurve(u) = OldCurve(Phi(u))  on the new domain;  *)
(*  - exactly, by polar forms (RePole), as the poles that must result.     *)
(* MC_CurveEdit.tla explores sequences of edits with the exact definition  *)
(* and checks the contract and the structural invariants in every state;   *)
(* TraceCurveEdit.tla holds the real code to the contract.                 *)
(***************************************************************************)
EXTENDS BSpline

\* multi-affine polar form of the polynomial piece of span s at the p arguments a
RECURSIVE Cut(_, _, _, _, _)
Cut(kl, p, a, r, D) ==
    IF r > p THEN D[1]
    ELSE Cut(kl, p, a, r + 1,
            TLCEval([j \in 1..(p - r + 1) |->
                LET lo == kl[r + j - 1]
                    hi == kl[p + j]
                IN VLerp(RDiv(RSub(a[r], lo), RSub(hi, lo)), D[j], D[j + 1])]))
Blossom(c, s, a) == Cut(SubSeq(c.k, s - c.p + 1, s + c.p), c.p, a, 1, SubSeq(c.P, s - c.p, s))

\* the poles of c over the refined (or truncated) knot vector k2, same degree
NonEmptyIn(k2, j, p) == CHOOSE i \in j..(j + p) : RLt(k2[i], k2[i + 1])
RePole(c, k2) ==
    [j \in 1..(Len(k2) - c.p - 1) |->
        LET i == NonEmptyIn(k2, j, c.p)
            s == Span(c.k, c.p, RDiv(RAdd(k2[i], k2[i + 1]), 2))
        IN Blossom(c, s, SubSeq(k2, j + 1, j + c.p))]
\* one degree elevation: k2 has every distinct knot of c once more
Without(a, i) == SubSeq(a, 1, i - 1) \o SubSeq(a, i + 1, Len(a))
VMean(V, n) == VScale(RDiv(1, n), [x \in 1..Len(V[1]) |-> RSum([i \in 1..n |-> V[i][x]])])
RePoleUp(c, k2) ==
    [j \in 1..(Len(k2) - c.p - 2) |->
        LET i == NonEmptyIn(k2, j, c.p + 1)
            s == Span(c.k, c.p, RDiv(RAdd(k2[i], k2[i + 1]), 2))
            a == SubSeq(k2, j + 1, j + c.p + 1)
        IN VMean([x \in 1..(c.p + 1) |-> Blossom(c, s, Without(a, x))], c.p + 1)]

----------------------------------------------------------------------------
\* Knot vectors after each operation

RECURSIVE InsAt(_, _, _)
InsAt(k, u, i) == IF i > Len(k) THEN Append(k, u)
                  ELSE IF RLt(u, k[i]) THEN SubSeq(k, 1, i - 1) \o <<u>> \o SubSeq(k, i, Len(k))
                  ELSE InsAt(k, u, i + 1)
RECURSIVE InsN(_, _, _)
InsN(k, u, m) == IF m <= 0 THEN k ELSE InsN(InsAt(k, u, 1), u, m - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* insertion is capped at multiplicity p, and does nothing when there is no room
Room(c, u) == Max2(0, c.p - Mult(c.k, u))
InsertedKnots(c, u, m) == InsN(c.k, u, Min2(m, Room(c, u)))

\* removal takes j copies of u out
RECURSIVE DropN(_, _, _)
DropN(k, u, j) == IF j = 0 THEN k
                  ELSE DropN(Without(k, CHOOSE i \in 1..Len(k) : REq(k[i], u)), u, j - 1)

RECURSIVE DistinctRec(_, _, _)
DistinctRec(k, i, acc) == IF i > Len(k) THEN acc
    ELSE IF acc # <<>> /\ REq(acc[Len(acc)], k[i]) THEN DistinctRec(k, i + 1, acc)
    ELSE DistinctRec(k, i + 1, Append(acc, k[i]))
DistinctKnots(k) == DistinctRec(k, 1, <<>>)
RECURSIVE UpEach(_, _, _, _)
UpEach(k, D, i, t) == IF i > Len(D) THEN k ELSE UpEach(InsN(k, D[i], t), D, i + 1, t)
ElevatedKnots(c, t) == UpEach(c.k, DistinctKnots(c.k), 1, t)

RECURSIVE Filter(_, _, _, _)
Filter(k, a, b, acc) == IF k = <<>> THEN acc
    ELSE IF RLt(a, Head(k)) /\ RLt(Head(k), b) THEN Filter(Tail(k), a, b, Append(acc, Head(k)))
    ELSE Filter(Tail(k), a, b, acc)
TrimmedKnots(c, a, b) == InsN(InsN(Filter(c.k, a, b, <<>>), a, c.p + 1), b, c.p + 1)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ReversedKnots(c) == LET n == Len(c.k) IN [i \in 1..n |-> RSub(RAdd(c.k[1], c.k[n]), c.k[n + 1 - i])]
Affine(k, a, b) == LET n == Len(k) IN
    [i \in 1..n |-> RAdd(a, RDiv(RMul(RSub(b, a), RSub(k[i], k[1])), RSub(k[n], k[1])))]

----------------------------------------------------------------------------
\* The operations, exactly

Insert(c, u, m)  == LET k2 == InsertedKnots(c, u, m) IN [c EXCEPT !.k = k2, !.P = TLCEval(RePole(c, k2))]
ElevateOnce(c)   == LET k2 == ElevatedKnots(c, 1) IN [c EXCEPT !.p = c.p + 1, !.k = k2, !.P = TLCEval(RePoleUp(c, k2))]
RECURSIVE Elevate(_, _)
Elevate(c, t)    == IF t = 0 THEN c ELSE Elevate(ElevateOnce(c), t - 1)
Trim(c, a, b)    == LET k2 == TrimmedKnots(c, a, b) IN [c EXCEPT !.k = k2, !.P = TLCEval(RePole(c, k2))]
Reverse(c)       == [c EXCEPT !.k = ReversedKnots(c), !.P = Rev(c.P)]
Rebound(c, a, b) == [c EXCEPT !.k = Affine(c.k, a, b)]
\* removal of j copies of u: allowed when the result has the same shape, i.e. when c is
\* the refinement of a curve without them; RemovableBy gives that curve
Removed(c, u, j) == LET k2 == DropN(c.k, u, j)
                        \* poles by polar forms on one side of u
                    IN [c EXCEPT !.k = k2, !.P = TLCEval(RePole(c, k2))]
Removable(c, u, j) ==
    /\ Mult(c.k, u) >= j
    /\ LET d == Removed(c, u, j)
       IN /\ ValidCurve(d)
          /\ \A i \in 1..Len(c.P) : VEq(RePole(d, c.k)[i], c.P[i])

----------------------------------------------------------------------------
\* The contract.  Sample parameters: m interior points of every non empty span of k
Samples(k, m) == {<<i, x>> : i \in {i \in 1..(Len(k) - 1) : RLt(k[i], k[i + 1])}, x \in 1..m}
SampleU(k, m, s) == RAdd(k[s[1]], RMul(RDiv(s[2], m + 1), RSub(k[s[1] + 1], k[s[1]])))

\* the points of c2 are those of c1 at Phi(u), up to tol
SameShape(c1, c2, Phi(_), m, tol) ==
    /\ \A s \in Samples(c2.k, m) :
          LET u == SampleU(c2.k, m, s) IN VNear(Point(c2, u), Point(c1, Phi(u)), tol)
    \* (where c1 is continuous; the samples decide the polynomial pieces anyway)
    /\ Mult(c1.k, Phi(LoU(c2))) > c1.p \/ VNear(Point(c2, LoU(c2)), Point(c1, Phi(LoU(c2))), tol)
    /\ Mult(c1.k, Phi(HiU(c2))) > c1.p \/ VNear(Point(c2, HiU(c2)), Point(c1, Phi(HiU(c2))), tol)
\* exactly (homogeneous coordinates, p+1 points per span: equality of polynomials)
SameH(c1, c2, Phi(_)) ==
    \A s \in Samples(c2.k, c2.p + 1) :
          LET u == SampleU(c2.k, c2.p + 1, s) IN VEq(HValue(c2, u, 0), HValue(c1, Phi(u), 0))

\* clamped, valid, interior multiplicities at most p
Proper(c) ==
    /\ ValidCurve(c)
    /\ \A i \in 1..(c.p + 1) : REq(c.k[i], c.k[1]) /\ REq(c.k[Len(c.k) + 1 - i], c.k[Len(c.k)])
    /\ \A i \in (c.p + 2)..(Len(c.k) - c.p - 1) : RLt(c.k[1], c.k[i]) /\ RLt(c.k[i], c.k[Len(c.k)]) /\ Mult(c.k, c.k[i]) <= c.p
=============================================================================
