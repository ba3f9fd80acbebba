--------------------------- MODULE MC_CurveTools ---------------------------
(***************************************************************************)
(* Every pair (and some triples) of small curves: unification keeps the    *)
(* shapes, gives one degree and one knot vector and is idempotent; joining *)
(* keeps both pieces; splitting then joining gives the curve back.         *)
(***************************************************************************)
EXTENDS CurveTools
CONSTANTS MaxP
VARIABLES cs, cs0, m, hist
\* m[i] = <<a, b>>: u of cs[i] -> a*u + b of cs0[i]
vars == <<cs, cs0, m, hist>>
Rep(x, n) == [i \in 1..n |-> x]
Mk(d, seed) ==
    LET p == d[1]
        at(i) == RAdd(d[4], RMul(RDiv(i, 8), d[5] - d[4]))
        K == Rep(R(d[4]), p + 1) \o Rep(at(4), d[2]) \o Rep(at(6), d[3]) \o Rep(R(d[5]), p + 1)
        n == Len(K) - p - 1
    IN [p |-> p, k |-> K, rat |-> TRUE, P |-> [i \in 1..n |-> <<R(((i * i * 7 + seed) % 11) - 5), R(1 + ((i + seed) % 3))>>]]
Defs == {<<p, a, b, r[1], r[2]>> : p \in 1..MaxP, a \in 0..1, b \in 0..2, r \in {<<0, 1>>, <<-1, 2>>}}
OkDef(d) == d[2] <= d[1] /\ d[3] <= d[1]
Init == \E d1 \in Defs, d2 \in Defs :
    /\ OkDef(d1) /\ OkDef(d2)
    /\ cs0 = <<Mk(d1, 0), Mk(d2, 3)>> /\ cs = cs0 /\ m = <<<<R(1), R(0)>>, <<R(1), R(0)>>>>
    /\ hist = <<>>
    /\ PrintT(<<"SCN">> \o d1 \o d2)
MapOnto(c, lo, hi, a, b) ==   \* affine change of bounds of c to [lo, hi]
    LET r == RDiv(RSub(HiU(c), LoU(c)), RSub(hi, lo)) IN <<RMul(a, r), RAdd(b, RMul(a, RSub(LoU(c), RMul(r, lo))))>>
DoUnify ==
    /\ cs' = Unify(cs)
    /\ m' = <<m[1], MapOnto(cs[2], LoU(cs[1]), HiU(cs[1]), m[2][1], m[2][2])>>
    /\ hist' = Append(hist, "U") /\ cs0' = cs0
Next == Len(hist) < 1 /\ DoUnify
Unified ==
    hist # <<>> =>
        /\ cs[1].p = Max2(cs0[1].p, cs0[2].p) /\ cs[2].p = cs[1].p
        /\ VEq(cs[1].k, cs[2].k)
        /\ LET c2 == Unify(cs) IN \A i \in 1..2 : VEq(c2[i].k, cs[i].k) /\ \A j \in 1..Len(cs[i].P) : VEq(c2[i].P[j], cs[i].P[j])
ShapeKept == \A i \in 1..2 : Proper(cs[i]) /\ SameH(cs0[i], cs[i], LAMBDA u : RAdd(RMul(m[i][1], u), m[i][2]))
\* c2 moved to start at the end of c1
Moved(c1, c2) ==
    LET d == VSub(Point(c1, HiU(c1)), Point(c2, LoU(c2)))
    IN [c2 EXCEPT !.P = [j \in 1..Len(c2.P) |-> VAdd(c2.P[j], Append(VScale(Wgt(c2.P[j]), d), R(0)))]]
JoinOk ==
    LET c1 == cs[1] c2 == Moved(c1, cs[2]) j == Join(c1, c2) h == HiU(c1)
        e(u) == IF RLt(u, h) THEN Point(c1, u) ELSE Point(c2, RAdd(RSub(u, h), LoU(c2)))
    IN /\ Proper(j)
       /\ \A s \in Samples(j.k, j.p + 2) : LET u == SampleU(j.k, j.p + 2, s) IN VEq(Point(j, u), e(u))
SplitJoin ==
    \A i \in {3, 4} :
        LET c == cs[1]
            u == RAdd(LoU(c), RMul(RDiv(i, 8), RSub(HiU(c), LoU(c))))
            j == Join(Trim(c, LoU(c), u), Trim(c, u, HiU(c)))
        IN \A s \in Samples(j.k, j.p + 2) : LET x == SampleU(j.k, j.p + 2, s) IN VEq(Point(j, x), Point(c, x))
=============================================================================
