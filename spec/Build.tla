------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Shapes built from others: segments, ellipses, derivative and integral   *)
(* curves, surfaces through given sections (lofts) and through two         *)
(* families of crossing curves (Gordon).                                   *)
(***************************************************************************)
EXTENDS CurveTools, Fit
Rp(x, n) == [i \in 1..n |-> x]
Segment(a, b, hi) == [p |-> 1, k |-> <<R(0), R(0), hi, hi>>, P |-> <<a, b>>, rat |-> FALSE]
\* the derivative of c and the curve starting at x of which c is the derivative
DerivativeOf(c) ==
    LET n == Len(c.P) IN
    [p |-> c.p - 1, k |-> SubSeq(c.k, 2, Len(c.k) - 1), rat |-> FALSE,
     P |-> TLCEval([i \in 1..(n - 1) |-> VScale(RDiv(c.p, RSub(c.k[i + c.p + 1], c.k[i + 1])), VSub(c.P[i + 1], c.P[i]))])]
RECURSIVE Sums(_, _, _)
Sums(c, i, acc) == IF i > Len(c.P) THEN acc
                   ELSE Sums(c, i + 1, Append(acc, VAdd(acc[i], VScale(RDiv(RSub(c.k[i + c.p + 1], c.k[i]), c.p + 1), c.P[i]))))
IntegralOf(c, x) == [p |-> c.p + 1, k |-> <<c.k[1]>> \o c.k \o <<c.k[Len(c.k)]>>, rat |-> FALSE, P |-> TLCEval(Sums(c, 1, <<x>>))]
\* lofts.  The parameter of the sections, from the poles of the unified ones
RowChord(P, ad) == \* <<>> when all its points coincide
    LET raw == CumulS(ChordsOf(P), Len(P) - 1, <<R(0)>>) IN IF REq(raw[Len(raw)], 0) THEN <<>> ELSE VScale(RDiv(1, raw[Len(raw)]), raw)
RECURSIVE MeanRows(_, _, _, _)
MeanRows(rows, i, acc, m) == IF i > Len(rows) THEN (IF m = 0 THEN <<>> ELSE VScale(RDiv(1, m), acc))
                             ELSE IF rows[i] = <<>> THEN MeanRows(rows, i + 1, acc, m) ELSE MeanRows(rows, i + 1, VAdd(acc, rows[i]), m + 1)
LoftParams(us) == \* us: unified sections
    LET n == Len(us) rows == [i \in 1..Len(us[1].P) |-> RowChord([j \in 1..n |-> us[j].P[i]], TRUE)]
        mean == MeanRows(rows, 1, VZero(n), 0)
    IN TLCEval(IF mean = <<>> THEN [j \in 1..n |-> RDiv(j - 1, n - 1)] ELSE mean)
\* the u of a section for the u of the loft
OnSection(cs, j, u) == RAdd(LoU(cs[j]), RDiv(RMul(RSub(u, LoU(cs[1])), RSub(HiU(cs[j]), LoU(cs[j]))), RSub(HiU(cs[1]), LoU(cs[1]))))
\* the surface passes through every section at its parameter
Passes(s, cs, v, Us, Tol(_, _)) == \A j \in 1..Len(cs) : \A u \in Us :
    VNear(SPoint(s, u, v[j]), Point(cs[j], OnSection(cs, j, u)), Tol(u, v[j]))
PassesAcross(s, cs, u, Vs, Tol(_, _)) == \A i \in 1..Len(cs) : \A v \in Vs : VNear(SPoint(s, u[i], v), Point(cs[i], v), Tol(u[i], v))
\* exactly: unified sections us, at parameters v, over knots kv of degree q
LoftOf(us, v, kv, q) ==
    LET n == Len(us) m == Len(us[1].P)
        A == [j \in 1..n |-> BasisRow(kv, q, v[j], 0)]
        col == TLCEval([i \in 1..m |-> SolveExact(A, [j \in 1..n |-> us[j].P[i]])])
    IN [p |-> us[1].p, q |-> q, ku |-> us[1].k, kv |-> kv, rat |-> us[1].rat,
        P |-> TLCEval([x \in 1..(m * n) |-> col[((x - 1) % m) + 1][((x - 1) \div m) + 1]])]
\* Hermite lofts: knots for a position and a derivative at every section
Doubled(v) == [i \in 1..(2 * Len(v)) |-> v[(i + 1) \div 2]]
Samples2(c) == LET D == DistinctKnots(c.k) IN {D[i] : i \in 1..Len(D)} \cup {RDiv(RAdd(D[i], D[i + 1]), 2) : i \in 1..(Len(D) - 1)}
=============================================================================
