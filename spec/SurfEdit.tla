------------------------------ MODULE SurfEdit ------------------------------
(***************************************************************************)
(* Editing a B-spline / NURBS surface.  Every operation acts in one        *)
(* direction; in the other direction the surface is a family of row        *)
(* curves (homogeneous, hence polynomial) on which CurveEdit.tla acts      *)
(* simultaneously.  V operations are U operations of the transposed        *)
(* surface.                                                                *)
(***************************************************************************)
EXTENDS CurveEdit

Row(s, j) == [p |-> s.p, k |-> s.ku, P |-> SubSeq(s.P, NU(s) * (j - 1) + 1, NU(s) * j), rat |-> FALSE]
RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]
\* the surface whose rows are F(row)
MapRows(s, F(_)) ==
    LET nv == NV(s)
        rows == TLCEval([j \in 1..nv |-> F(Row(s, j))])
    IN [s EXCEPT !.p = rows[1].p, !.ku = rows[1].k, !.P = Concat([j \in 1..nv |-> rows[j].P], nv)]
Transpose(s) ==
    LET nu == NU(s) nv == NV(s)
    IN [p |-> s.q, q |-> s.p, ku |-> s.kv, kv |-> s.ku, rat |-> s.rat,
        P |-> [n \in 1..(nu * nv) |-> s.P[1 + ((n - 1) \div nv) + nu * ((n - 1) % nv)]]]

SInsertU(s, u, m)  == MapRows(s, LAMBDA r : Insert(r, u, m))
SElevateU(s)       == MapRows(s, LAMBDA r : ElevateOnce(r))
STrimU(s, a, b)    == MapRows(s, LAMBDA r : Trim(r, a, b))
SReverseU(s)       == MapRows(s, LAMBDA r : Reverse(r))
SReboundU(s, a, b) == MapRows(s, LAMBDA r : Rebound(r, a, b))
InV(s, F(_)) == Transpose(F(Transpose(s)))
\* iso parametric curves: u -> S(u, v) at a given v, and the converse
IsoV(s, v) == [p |-> s.p, k |-> s.ku, rat |-> s.rat,
               P |-> [i \in 1..NU(s) |-> HValue(Row(Transpose(s), i), v, 0)]]
IsoU(s, u) == IsoV(Transpose(s), u)

SLo(s) == s.ku[1]
SHi(s) == s.ku[Len(s.ku)]
SBounds(s) == <<s.ku[1], s.ku[Len(s.ku)], s.kv[1], s.kv[Len(s.kv)]>>
ProperSurface(s) == /\ Proper(Row(s, 1)) /\ Proper(Row(Transpose(s), 1)) /\ ValidSurface(s)
=============================================================================
