---------------------------- MODULE MC_Delaunay ----------------------------
(***************************************************************************)
(* Every insertion sequence of up to K of the given points into a large    *)
(* triangle, by Bowyer-Watson; then, for every pair p, q of inserted       *)
(* points without a point between them, every sequence of flips of the     *)
(* edges that cross p-q.  Checked: the mesh stays proper, counter-         *)
(* clockwise, of the same area and boundary; it is Delaunay after          *)
(* insertions; flips never get stuck before the edge p-q is there.         *)
(***************************************************************************)
EXTENDS Delaunay
CONSTANTS K, N, Flips
VARIABLES M, pts, goal
\* vertices 1..3: the large triangle; vertex 3 + i: pts[i], a grid point <<x, y>> coded x + N*y
Big == << <<-20, -15>>, <<40, -16>>, <<-13, 45>> >>
Pt(c) == <<c % N, c \div N>>
XOf(ps) == [v \in 1..(3 + Len(ps)) |-> IF v <= 3 THEN Big[v] ELSE Pt(ps[v - 3])]
X == XOf(pts)
Init == M = {<<1, 2, 3>>} /\ pts = <<>> /\ goal = <<>>
Add == /\ goal = <<>> /\ Len(pts) < K
       /\ \E c \in 0..(N * N - 1) :
             /\ \A i \in 1..Len(pts) : pts[i] # c
             /\ M' = Insert(X, M, Len(pts) + 4, Pt(c))
             /\ pts' = Append(pts, c) /\ goal' = <<>>
             /\ (Len(pts') = K => PrintT(<<"SCN">> \o pts'))
Ask == /\ Flips /\ goal = <<>> /\ Len(pts) = K
       /\ \E p, q \in 4..(3 + K) : p < q /\ <<p, q>> \notin Edges(M) /\ (\A v \in 4..(3 + K) : ~Between(X[p], X[q], X[v]))
                                   /\ goal' = <<p, q>> /\ UNCHANGED <<M, pts>>
Crossing == {e \in Edges(M) : e[1] < e[2] /\ Rev(e) \in Edges(M) /\ Crosses(X[goal[1]], X[goal[2]], X[e[1]], X[e[2]])}
Flippable == {e \in Crossing : Convex(X, M, e)}
Recover == goal # <<>> /\ goal \notin Edges(M) /\ \E e \in Flippable : M' = Flip(M, e) /\ UNCHANGED <<pts, goal>>
Next == Add \/ Ask \/ Recover

IsProper == Proper(M) /\ Ccw(X, M)
SameArea == REq(Area2(X, M), Orient(Big[1], Big[2], Big[3])) /\ Boundary(M) = {<<1, 2>>, <<2, 3>>, <<3, 1>>}
Count == Cardinality(M) = 1 + 2 * Len(pts) /\ Euler(M) = 1
Del == goal = <<>> => IsDelaunay(X, M, 1..(3 + Len(pts)), 0)
NotStuck == goal # <<>> /\ goal \notin Edges(M) => Flippable # {}
=============================================================================
