--------------------------- MODULE TraceDelaunay ---------------------------
(***************************************************************************)
(* Conformance of the point insertion, of the Delaunay triangulation of a  *)
(* list of points and of the triangulation of polygons with holes.         *)
(***************************************************************************)
EXTENDS TraceBase, Delaunay
XM(m) == [v \in {m.V[i][1] : i \in 1..Len(m.V)} |-> VOf(m.V[CHOOSE i \in 1..Len(m.V) : m.V[i][1] = v][3])]
Fl(t) == Has(t, "fl") /\ t.fl
\* in_circle is evaluated in floating point: doubtful cases are those whose sum cancels to this part of its terms
TCirc(t) == IF Fl(t) THEN RDiv(1, 16384) ELSE RDiv(RDiv(1, 1048576), 1048576)
Ids(m) == {m.F[i][1] : i \in 1..Len(m.F)}
CycOf(m, f) == Cycle(m, m.F[CHOOSE i \in 1..Len(m.F) : m.F[i][1] = f])
Inj(q) == Cardinality(SetOf(q)) = Len(q)
Pts(q) == [i \in 1..Len(q) |-> VOf(q[i])]
\* each inner edge: the apex on the other side is not in the circle
LocallyDelaunay(X, M, tol) == \A e \in Edges(M) : Rev(e) \in Edges(M) =>
    LET f == FaceOf(M, e) y == Apex(FaceOf(M, Rev(e)), e)
    IN RLe(InCirc(X[f[1]], X[f[2]], X[f[3]], X[y]), RMul(tol, InCircMag(X[f[1]], X[f[2]], X[f[3]], X[y])))
OnBorder(X, M, x) == \E e \in Boundary(M) : Between(X[e[1]], X[e[2]], x)

StartOk(t, e) ==
    LET X == XM(e.m) M == Abs(e.m) P == Pts(e.box) IN
    /\ Structure(e.m) /\ Ccw(X, M)
    \* the encompassing mesh: two triangles around all of the points
    /\ e.b => Cardinality(M) = 2 /\ \A i \in 1..Len(P) : Inside(X, M, P[i])
InsertOk(t, o, e) ==
    LET X0 == XM(o.m) M0 == Abs(o.m) x == VOf(e.x) X == XM(e.m) M == Abs(e.m)
        refused == (\E v \in DOMAIN X0 : VEq(X0[v], x)) \/ ~Inside(X0, M0, x) \/ OnBorder(X0, M0, x)
    IN IF refused THEN e.v = 0 /\ e.del = <<>> /\ e.new = <<>> /\ e.m = o.m
       ELSE /\ e.v # 0 /\ e.v \notin DOMAIN X0 /\ Structure(e.m)
            /\ Inj(e.del) /\ SetOf(e.del) = Ids(o.m) \ Ids(e.m)
            /\ Inj(e.new) /\ SetOf(e.new) = Ids(e.m) \ Ids(o.m)
            /\ LET S == {CycOf(o.m, f) : f \in SetOf(e.del)}
               IN /\ \E f \in S : InTri(X0, f, x)
                  /\ M = Fill(M0, S, e.v)
            /\ VEq(X[e.v], x) /\ \A v \in DOMAIN X0 : v \in DOMAIN X /\ VEq(X[v], X0[v])
            /\ Ccw(X, M)
            /\ o.del => LocallyDelaunay(X, M, TCirc(t))

MinOf(P, k) == LET S == {P[i][k] : i \in 1..Len(P)} IN CHOOSE m \in S : \A y \in S : RLe(m, y)
MaxOf(P, k) == LET S == {P[i][k] : i \in 1..Len(P)} IN CHOOSE m \in S : \A y \in S : RLe(y, m)
DelaunayOk(t, e) ==
    LET P == Pts(e.pts) X == XM(e.m) M == Abs(e.m)
        D == {i \in 1..Len(P) : \A j \in 1..(i - 1) : ~VEq(P[i], P[j])}     \* distinct points
        Idx(v) == CHOOSE i \in D : VEq(P[i], X[v])
        Faces == {{Idx(v) : v \in Verts(f)} : f \in M}
        lo == <<MinOf(P, 1), MinOf(P, 2)>> hi == <<MaxOf(P, 1), MaxOf(P, 2)>>
    IN /\ Structure(e.m) /\ Ccw(X, M)
       /\ \A v \in DOMAIN X : \E i \in 1..Len(P) : VEq(P[i], X[v])
       /\ \A f \in M : \A i \in D : (\E v \in Verts(f) : VEq(X[v], P[i])) \/
                RLe(InCirc(X[f[1]], X[f[2]], X[f[3]], P[i]), RMul(TCirc(t), InCircMag(X[f[1]], X[f[2]], X[f[3]], P[i])))
       \* a triangle of points is there if its circle is within their bounding box and has no other point in or on it
       /\ \A i, j, k \in D : i < j /\ i < k /\ j # k /\ RLt(RMul(TCirc(t), OrientMag(P[i], P[j], P[k])), Orient(P[i], P[j], P[k]))
              /\ CircleIn(P[i], P[j], P[k], lo, hi)
              /\ (\A q \in D : q \in {i, j, k} \/ RLt(InCirc(P[i], P[j], P[k], P[q]), RNeg(RMul(TCirc(t), InCircMag(P[i], P[j], P[k], P[q])))))
              => {i, j, k} \in Faces

\* the triangulation covers the convex hull of the points: all of them are on the left of its boundary
\* (but for triangles on it that are flatter than about a thousandth; points within rounding of a line are left out)
Ext(a, b, c) == RAdd(Sq(a, b), RAdd(Sq(a, c), Sq(b, c)))
HullOk(t, o) ==
    LET P == Pts(o.pts) X == XM(o.m) M == Abs(o.m) tol == RDiv(1, 1024)
        Flat == \A i, j, k \in 1..Len(P) : i < j /\ j < k => RLe(RAbs(Orient(P[i], P[j], P[k])), RMul(tol, Ext(P[i], P[j], P[k])))
        eps == IF Fl(t) THEN RDiv(1, 16384) ELSE RDiv(1, 1073741824)
        Doubtful == \E i, j, k \in 1..Len(P) : i < j /\ j < k /\ LET a == RAbs(Orient(P[i], P[j], P[k])) IN RLt(0, a) /\ RLe(a, RMul(eps, Ext(P[i], P[j], P[k])))
    IN IF Doubtful THEN TRUE
       ELSE IF M = {} THEN Flat
       ELSE \A d \in Boundary(M) : \A i \in 1..Len(P) : RLe(RNeg(RMul(tol, Ext(X[d[1]], X[d[2]], P[i]))), Orient(X[d[1]], X[d[2]], P[i]))

RECURSIVE SumArea(_)
SumArea(q) == IF q = <<>> THEN R(0) ELSE RAdd(PolyArea2(Pts(Head(q))), SumArea(Tail(q)))
RECURSIVE SumLens(_)
SumLens(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)) + SumLens(Tail(q))
ConstrainedOk(t, e) ==
    LET O == Pts(e.outer) H == [i \in 1..Len(e.holes) |-> Pts(e.holes[i])] X == XM(e.m) M == Abs(e.m)
        nv == Len(O) + SumLens(e.holes)
        V(x) == {v \in DOMAIN X : VEq(X[v], x)}
        Side(a, b) == \E v \in V(a), w \in V(b) : <<v, w>> \in Boundary(M)
    IN /\ Structure(e.m) /\ Ccw(X, M)
       /\ Cardinality(DOMAIN X) = nv
       \* the sides bound the mesh, inside on their left, and nothing else does
       /\ \A i \in 1..Len(O) : Side(O[i], O[(i % Len(O)) + 1])
       /\ \A k \in 1..Len(H) : \A i \in 1..Len(H[k]) : Side(H[k][(i % Len(H[k])) + 1], H[k][i])
       /\ Cardinality(Boundary(M)) = nv
       \* the polygon less the holes is covered once
       /\ REq(Area2(X, M), RSub(PolyArea2(O), SumArea(e.holes)))
       /\ Cardinality(M) = nv - 2 + 2 * Len(H)
\* afterwards the edge p-q is there, with the edges it does not cross and nothing else about the mesh changed
RecoverOk(t, o, e) ==
    LET X == XM(o.m) M0 == Abs(o.m) M == Abs(e.m) pq == <<e.p, e.q>>
        through == \E v \in DOMAIN X : Between(X[e.p], X[e.q], X[v])
    IN IF e.p = e.q \/ pq \in Edges(M0) \/ <<e.q, e.p>> \in Edges(M0)
       THEN e.m = o.m /\ (IF pq \in Edges(M0) /\ e.p # e.q THEN e.r \in HIds(o.m) /\ EdgeOfH(o.m, e.r) = pq ELSE e.r = 0)
       ELSE /\ WellFormed(e.m) /\ Ccw(XM(e.m), M) /\ XM(e.m) = X
            /\ Boundary(M) = Boundary(M0) /\ Cardinality(M) = Cardinality(M0)
            /\ \A d \in Edges(M0) : Crosses(X[e.p], X[e.q], X[d[1]], X[d[2]]) \/ d \in Edges(M)
            /\ IF through THEN e.r = 0 ELSE e.r \in HIds(e.m) /\ EdgeOfH(e.m, e.r) = pq

\* faces whose centre of gravity is inside (or outside) of the polygon leave the mesh
Third(X, f) == <<RDiv(RAdd(RAdd(X[f[1]][1], X[f[2]][1]), X[f[3]][1]), 3), RDiv(RAdd(RAdd(X[f[1]][2], X[f[2]][2]), X[f[3]][2]), 3)>>
NearSide(P, x, tol) == \E i \in 1..Len(P) : LET a == P[i] b == P[(i % Len(P)) + 1] IN RLe(RAbs(Orient(a, b, x)), RMul(tol, OrientMag(a, b, x)))
TakeOk(t, o, e) ==
    LET P == Pts(e.poly) K == {Norm(e.taken[i]) : i \in 1..Len(e.taken)} M == Abs(e.m)
        Vs == e.m.V \o e.tv
        X == [v \in {Vs[i][1] : i \in 1..Len(Vs)} |-> VOf(Vs[CHOOSE i \in 1..Len(Vs) : Vs[i][1] = v][3])]
        A == M \cup K X0 == XM(o.m) M0 == Abs(o.m) tol == IF Fl(t) THEN RDiv(1, 65536) ELSE RDiv(1, 1073741824)
        new == {x \in SetOf(P) : (\A v \in DOMAIN X0 : ~VEq(X0[v], x)) /\ Inside(X0, M0, x) /\ ~OnBorder(X0, M0, x)}
    IN /\ Structure(e.m) /\ Cardinality(K) = Len(e.taken) /\ K \cap M = {}
       /\ \A v \in DOMAIN X0 : v \in DOMAIN X /\ VEq(X[v], X0[v])
       /\ IF e.add
          THEN /\ Proper(A) /\ Ccw(X, A) /\ Boundary(A) = Boundary(M0)
               /\ \A x \in new : \E v \in DOMAIN X \ DOMAIN X0 : VEq(X[v], x)
               /\ Cardinality(DOMAIN X) = Cardinality(DOMAIN X0) + Cardinality(new)
               /\ REq(Area2(X, A), Area2(X0, M0))
          ELSE A = M0
       /\ \A f \in A : LET x == Third(X, f) IN NearSide(P, x, tol) \/ ((f \in K) <=> (InPoly(P, x) <=> e.in))
Allowed(t, o, e) ==
    CASE e.op = "start" -> StartOk(t, e)
      [] e.op = "insert" -> InsertOk(t, o, e)
      [] e.op = "delaunay" -> DelaunayOk(t, e)
      [] e.op = "hull" -> HullOk(t, o)
      [] e.op = "constrained" -> ConstrainedOk(t, e)
      [] e.op = "recover" -> RecoverOk(t, o, e)
      [] e.op = "take" -> TakeOk(t, o, e)
      [] OTHER -> FALSE
Effect(t, o, e) ==
    CASE e.op = "start" -> [o EXCEPT !.m = e.m, !.del = LocallyDelaunay(XM(e.m), Abs(e.m), 0)]
      [] e.op = "delaunay" -> [o EXCEPT !.m = e.m, !.pts = e.pts]
      [] e.op \in {"insert", "recover", "take"} -> [o EXCEPT !.m = e.m]
      [] OTHER -> o
Init == TraceInit(LAMBDA t : [m |-> [F |-> <<>>, H |-> <<>>, V |-> <<>>], del |-> FALSE, pts |-> <<>>])
Next == TraceStep(Allowed, Effect)
=============================================================================
