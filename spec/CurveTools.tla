----------------------------- MODULE CurveTools -----------------------------
(***************************************************************************)
(* Operations on several curves / surfaces: bringing definitions to a      *)
(* common degree and a common knot vector, joining, splitting, extending.  *)
(***************************************************************************)
EXTENDS SurfEdit

RECURSIVE MaxDegree(_, _)
MaxDegree(cs, i) == IF i = 1 THEN cs[1].p ELSE Max2(cs[i].p, MaxDegree(cs, i - 1))
UnifyDegree(cs) == [i \in 1..Len(cs) |-> Elevate(cs[i], MaxDegree(cs, Len(cs)) - cs[i].p)]

\* the common knots: every value of any of them, with its largest multiplicity
RECURSIVE UnionDistinct(_, _, _)
UnionDistinct(k, D, i) ==
    IF i > Len(D) THEN k
    ELSE UnionDistinct(InsN(k, D[i][1], Max2(0, D[i][2] - Mult(k, D[i][1]))), D, i + 1)
WithMults(k) == LET D == DistinctKnots(k) IN [i \in 1..Len(D) |-> <<D[i], Mult(k, D[i])>>]
RECURSIVE UnionKnots(_, _, _)
UnionKnots(ks, i, acc) == IF i > Len(ks) THEN acc ELSE UnionKnots(ks, i + 1, UnionDistinct(acc, WithMults(ks[i]), 1))
\* all over the range of the first
OnFirst(ks) == [i \in 1..Len(ks) |-> Affine(ks[i], ks[1][1], ks[1][Len(ks[1])])]
CommonKnots(ks) == LET m == OnFirst(ks) IN UnionKnots(m, 2, m[1])
Refine(c, k2) == [c EXCEPT !.k = k2, !.P = TLCEval(RePole(c, k2))]
\* curves of one degree
UnifyKnots(cs) ==
    LET K == CommonKnots([i \in 1..Len(cs) |-> cs[i].k])
        m == OnFirst([i \in 1..Len(cs) |-> cs[i].k])
    IN [i \in 1..Len(cs) |-> Refine([cs[i] EXCEPT !.k = m[i]], K)]
Unify(cs) == UnifyKnots(UnifyDegree(cs))

\* knots of elevated curve: each distinct knot t more times
UpKnots(c, t) == IF t = 0 THEN c.k ELSE ElevatedKnots(c, t)

\* join: c2 follows c1, its parameter shifted; the junction knot has multiplicity p
ShiftK(k, d) == [i \in 1..Len(k) |-> RAdd(k[i], d)]
JoinKnots(k1, k2, p) ==
    LET d == RSub(k1[Len(k1)], k2[1]) s == ShiftK(k2, d)
    IN SubSeq(k1, 1, Len(k1) - 1) \o SubSeq(s, p + 2, Len(s))
Scaled(P, w) == [i \in 1..Len(P) |-> VScale(w, P[i])]
Join(c1, c2) ==
    LET e == UnifyDegree(<<c1, c2>>)
        p == e[1].p
        P1 == IF c1.rat THEN Scaled(e[1].P, RDiv(1, Wgt(e[1].P[Len(e[1].P)]))) ELSE e[1].P
        P2 == IF c1.rat THEN Scaled(e[2].P, RDiv(1, Wgt(e[2].P[1]))) ELSE e[2].P
    IN [p |-> p, k |-> JoinKnots(e[1].k, e[2].k, p), P |-> TLCEval(P1 \o SubSeq(P2, 2, Len(P2))), rat |-> c1.rat]
=============================================================================
