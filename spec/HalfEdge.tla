----------------------------- MODULE HalfEdge -----------------------------
(***************************************************************************)
(* Half-edge meshes.                                                       *)
(*                                                                         *)
(* Abstractly a mesh is a set of faces, a face being a cyclic sequence of  *)
(* vertices, written with its smallest vertex first; a directed edge       *)
(* belongs to at most one face, and two faces are neighbours where one has *)
(* <<a,b>> and the other <<b,a>>.                                          *)
(*                                                                         *)
(* Concretely it is what the library stores: half-edges <<id, end vertex,  *)
(* next, previous, opposite, face>> (0 is "none"), faces <<id, half-edge>> *)
(* and vertices <<id, half-edge>>.  WellFormed says when this structure is *)
(* consistent, Abs is the abstraction; every edit is specified on the      *)
(* abstract mesh, and its implementation has to preserve WellFormed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
\* abstract meshes
RotTo(c, i) == [j \in 1..Len(c) |-> c[((i + j - 2) % Len(c)) + 1]]
Norm(c) == LET i == CHOOSE i \in 1..Len(c) : \A j \in 1..Len(c) : c[i] <= c[j] IN RotTo(c, i)
FaceEdges(c) == {<<c[i], c[(i % Len(c)) + 1]>> : i \in 1..Len(c)}
Edges(M) == UNION {FaceEdges(c) : c \in M}
Verts(c) == {c[i] : i \in 1..Len(c)}
VertsOf(M) == UNION {Verts(c) : c \in M}
RECURSIVE SumLen(_)
SumLen(M) == IF M = {} THEN 0 ELSE LET c == CHOOSE c \in M : TRUE IN Len(c) + SumLen(M \ {c})
\* every directed edge at most once
Proper(M) == Cardinality(Edges(M)) = SumLen(M) /\ \A c \in M : Cardinality(Verts(c)) = Len(c)
FaceOf(M, e) == CHOOSE c \in M : e \in FaceEdges(c)
Rev(e) == <<e[2], e[1]>>
Boundary(M) == {e \in Edges(M) : Rev(e) \notin Edges(M)}
BoundaryOf(S) == {e \in Edges(S) : Rev(e) \notin Edges(S)}
Undirected(M) == {{e[1], e[2]} : e \in Edges(M)}
Euler(M) == Cardinality(VertsOf(M)) - Cardinality(Undirected(M)) + Cardinality(M)

Linked(M, f, g) == \E e \in FaceEdges(f) : Rev(e) \in FaceEdges(g)

\* the third vertex of a triangle with edge e
Apex(c, e) == CHOOSE x \in Verts(c) : x # e[1] /\ x # e[2]

CanAddFace(M, e)    == e \in Boundary(M)
AddFace(M, e, w)    == M \cup {Norm(<<e[2], e[1], w>>)}
CanAddVertex(M, f)  == f \in M
AddVertex(M, f, w)  == (M \ {f}) \cup {Norm(<<e[1], e[2], w>>) : e \in FaceEdges(f)}
\* S: faces whose boundary is one loop
CanFill(M, S)       == S \subseteq M /\ S # {}
Fill(M, S, w)       == (M \ S) \cup {Norm(<<e[1], e[2], w>>) : e \in BoundaryOf(S)}
\* the two triangles of e and Rev(e) get the other diagonal
CanFlip(M, e)       == /\ e \in Edges(M) /\ Rev(e) \in Edges(M)
                       /\ Len(FaceOf(M, e)) = 3 /\ Len(FaceOf(M, Rev(e))) = 3
                       /\ LET x == Apex(FaceOf(M, e), e) y == Apex(FaceOf(M, Rev(e)), e)
                          IN x # y /\ <<x, y>> \notin Edges(M) /\ <<y, x>> \notin Edges(M)
Flip(M, e)          == LET f == FaceOf(M, e) g == FaceOf(M, Rev(e)) x == Apex(f, e) y == Apex(g, e)
                       IN (M \ {f, g}) \cup {Norm(<<x, e[1], y>>), Norm(<<y, e[2], x>>)}
\* w is put on the edge e, both triangles are halved
CanSplit(M, e)      == e \in Edges(M) /\ Len(FaceOf(M, e)) = 3 /\ (Rev(e) \in Edges(M) => Len(FaceOf(M, Rev(e))) = 3)
Halves(f, e, w)     == LET x == Apex(f, e) IN {Norm(<<e[1], w, x>>), Norm(<<w, e[2], x>>)}
Split(M, e, w)      == LET f == FaceOf(M, e)
                       IN IF Rev(e) \in Edges(M)
                          THEN LET g == FaceOf(M, Rev(e)) IN (M \ {f, g}) \cup Halves(f, e, w) \cup Halves(g, Rev(e), w)
                          ELSE (M \ {f}) \cup Halves(f, e, w)
WithVertex(M, v)    == {c \in M : v \in Verts(c)}
RemoveVertex(M, v)  == M \ WithVertex(M, v)
Erase(M, f)         == M \ {f}

\* faces around v that can be reached from f without leaving v
RECURSIVE FanFrom(_, _, _)
FanFrom(M, v, S) == LET T == S \cup {g \in WithVertex(M, v) : \E f \in S : \E e \in FaceEdges(f) :
                                         (v = e[1] \/ v = e[2]) /\ Rev(e) \in FaceEdges(g)}
                    IN IF T = S THEN S ELSE FanFrom(M, v, T)
Fan(M, v, f) == FanFrom(M, v, {f})
\* all the faces of v form one fan
Umbrella(M, v) == WithVertex(M, v) # {} /\ LET f == CHOOSE f \in WithVertex(M, v) : TRUE IN Fan(M, v, f) = WithVertex(M, v)
Interior(M, v) == ~ \E e \in Boundary(M) : v \in {e[1], e[2]}

----------------------------------------------------------------------------
\* the stored structure: m.F, m.H, m.V sequences of tuples
SetOf(q)    == {q[i] : i \in 1..Len(q)}
HIds(m)     == {m.H[i][1] : i \in 1..Len(m.H)}
HE(m)       == [h \in HIds(m) |-> m.H[CHOOSE i \in 1..Len(m.H) : m.H[i][1] = h]]
End(H, h)   == H[h][2]
Nxt(H, h)   == H[h][3]
Prv(H, h)   == H[h][4]
Opp(H, h)   == H[h][5]
Fac(H, h)   == H[h][6]
Start(H, h) == H[H[h][4]][2]
\* the loop of half-edges from h, at most n
RECURSIVE LoopFrom(_, _, _, _)
LoopFrom(H, h, h0, n) == IF n = 0 \/ h \notin DOMAIN H THEN <<>>
                         ELSE IF Nxt(H, h) = h0 THEN <<h>> ELSE <<h>> \o LoopFrom(H, Nxt(H, h), h0, n - 1)
LoopOf(m, f) == LoopFrom(HE(m), f[2], f[2], 64)
Cycle(m, f) == LET L == LoopOf(m, f) H == HE(m) IN Norm([i \in 1..Len(L) |-> End(H, L[i])])
Abs(m) == {Cycle(m, m.F[i]) : i \in 1..Len(m.F)}

\* all but the vertices' own half-edges
Structure(m) ==
    LET H == HE(m) IDS == DOMAIN H FS == {m.F[i][1] : i \in 1..Len(m.F)} IN
    /\ Cardinality(IDS) = Len(m.H) /\ Cardinality(FS) = Len(m.F)
    /\ \A h \in IDS : /\ Nxt(H, h) \in IDS /\ Prv(H, h) \in IDS
                      /\ Prv(H, Nxt(H, h)) = h /\ Nxt(H, Prv(H, h)) = h
                      /\ Fac(H, h) \in FS /\ Fac(H, Nxt(H, h)) = Fac(H, h)
    /\ \A i \in 1..Len(m.F) : m.F[i][2] \in IDS /\ Fac(H, m.F[i][2]) = m.F[i][1]
                              /\ Len(LoopOf(m, m.F[i])) = Cardinality({h \in IDS : Fac(H, h) = m.F[i][1]})
    \* opposites are mutual, run the other way, and none leads out of the mesh
    /\ \A h \in IDS : Opp(H, h) # 0 => /\ Opp(H, h) \in IDS /\ Opp(H, Opp(H, h)) = h /\ Opp(H, h) # h
                                       /\ Start(H, h) = End(H, Opp(H, h)) /\ End(H, h) = Start(H, Opp(H, h))
    \* every directed edge once, and every edge seen from both sides is linked
    /\ Cardinality({<<Start(H, h), End(H, h)>> : h \in IDS}) = Len(m.H)
    /\ LET E == {<<Start(H, h), End(H, h)>> : h \in IDS}
       IN \A h \in IDS : Opp(H, h) = 0 => <<End(H, h), Start(H, h)>> \notin E
\* each vertex knows one of the half-edges that end at it
VertexOk(m, i) == LET H == HE(m) IN m.V[i][2] \in DOMAIN H /\ End(H, m.V[i][2]) = m.V[i][1]
VertexEdges(m) == \A i \in 1..Len(m.V) : VertexOk(m, i)
WellFormed(m) == Structure(m) /\ VertexEdges(m)
EdgeOfH(m, h) == LET H == HE(m) IN <<Start(H, h), End(H, h)>>
HOf(m, e) == CHOOSE h \in HIds(m) : EdgeOfH(m, h) = e
=============================================================================
