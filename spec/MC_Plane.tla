----------------------------- MODULE MC_Plane -----------------------------
(***************************************************************************)
(* The predicates agree with each other on every four points of a grid.    *)
(***************************************************************************)
EXTENDS Plane
CONSTANT N
VARIABLES q
Pt(c) == <<c % N, c \div N>>
A == Pt(q[1])
B == Pt(q[2])
C == Pt(q[3])
D == Pt(q[4])
Init == q = <<>>
Next == /\ Len(q) < 4 /\ \E c \in 0..(N * N - 1) : q' = Append(q, c)
        /\ (Len(q') = 4 => PrintT(<<"SCN">> \o q'))
Full == Len(q) = 4
o == RSign(Orient(A, B, C))
Antisym == Full => /\ REq(Orient(A, B, C), Orient(B, C, A)) /\ REq(Orient(A, B, C), RNeg(Orient(B, A, C)))
                   /\ REq(Orient(A, B, C), RAdd(RAdd(Orient(A, B, D), Orient(B, C, D)), Orient(C, A, D)))
\* inside of the circle: closer to the centre
Circle == Full /\ o # 0 => LET m == Centre(A, B, C) IN
            /\ REq(Sq(A, m), Sq(B, m)) /\ REq(Sq(B, m), Sq(C, m))
            /\ o * RSign(InCirc(A, B, C, D)) = RSign(RSub(Sq(A, m), Sq(D, m)))
Barycentric == Full /\ o # 0 => LET w == Bary(A, B, C, D) IN
            /\ REq(RAdd(A[1], RAdd(RMul(w[1], RSub(C[1], A[1])), RMul(w[2], RSub(B[1], A[1])))), D[1])
            /\ InClosedTri(A, B, C, D) <=> RLe(0, w[1]) /\ RLe(0, w[2]) /\ RLe(RAdd(w[1], w[2]), 1)
            /\ InClosedTri(A, B, C, D) <=> InPoly(<<A, B, C>>, D) \/ OnPoly(<<A, B, C>>, D)
Crossing == Full =>
            /\ Crosses(A, B, C, D) <=> Crosses(C, D, A, B)
            /\ RSign(Det(Sub2(B, A), Sub2(D, C))) # 0 => LET w == Param(A, B, C, Sub2(D, C)) IN
                 Crosses(A, B, C, D) <=> RLt(0, w[1]) /\ RLt(w[1], 1) /\ RLt(0, w[2]) /\ RLt(w[2], 1)
Quads == Full /\ Crosses(A, B, C, D) => \E P \in {<<A, C, B, D>>} : RSign(PolyArea2(P)) # 0 /\ RSign(Orient(A, C, B)) = RSign(PolyArea2(P))
=============================================================================
