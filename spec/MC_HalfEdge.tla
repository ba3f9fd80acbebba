---------------------------- MODULE MC_HalfEdge ----------------------------
(***************************************************************************)
(* Every sequence of Depth edits of a small mesh.  Checked in every state: *)
(* the mesh is proper, the boundary is made of closed loops, the edits     *)
(* that only refine keep the Euler characteristic and the boundary's       *)
(* vertices, flipping twice gives the mesh back.                           *)
(***************************************************************************)
EXTENDS HalfEdge
CONSTANTS Depth, NStarts, PrintAll
VARIABLES M, nv, hist, chi

Starts == << {<<1, 2, 3>>},
             {<<1, 2, 3>>, <<1, 3, 4>>},
             {<<1, 2, 4>>, <<2, 3, 4>>, <<1, 4, 3>>},
             {<<1, 2, 3, 4>>},
             {<<1, 2, 3>>, <<1, 4, 2>>, <<2, 4, 3>>, <<1, 3, 4>>} >>
Init == \E s \in 1..NStarts : M = Starts[s] /\ nv = Cardinality(VertsOf(M)) /\ hist = <<s>> /\ chi = Euler(M)
Log(x) == hist' = hist \o x
Adjacent == {S \in SUBSET M : Cardinality(S) = 2 /\ \E f, g \in S : f # g /\ Linked(M, f, g) /\ Cardinality({e \in FaceEdges(f) : Rev(e) \in FaceEdges(g)}) = 1}
DoAddFace == \E e \in Boundary(M) : M' = AddFace(M, e, nv + 1) /\ nv' = nv + 1 /\ chi' = chi /\ Log(<<"A", e[1], e[2]>>)
DoAddVertex == \E f \in M : M' = AddVertex(M, f, nv + 1) /\ nv' = nv + 1 /\ chi' = chi /\ Log(<<"V", f[1], f[2]>>)
DoFill == \E S \in Adjacent : \E e \in Edges(S) \ BoundaryOf(S) :
              e[1] < e[2] /\ M' = Fill(M, S, nv + 1) /\ nv' = nv + 1 /\ chi' = chi /\ Log(<<"C", e[1], e[2]>>)
DoFlip == \E e \in Edges(M) : e[1] < e[2] /\ CanFlip(M, e) /\ M' = Flip(M, e) /\ nv' = nv /\ chi' = chi /\ Log(<<"F", e[1], e[2]>>)
DoSplit == \E e \in Edges(M) : CanSplit(M, e) /\ M' = Split(M, e, nv + 1) /\ nv' = nv + 1 /\ chi' = chi /\ Log(<<"S", e[1], e[2]>>)
DoErase == \E f \in M : Cardinality(M) > 1 /\ M' = Erase(M, f) /\ nv' = nv /\ chi' = Euler(M') /\ Log(<<"E", f[1], f[2]>>)
DoRemove == \E v \in VertsOf(M) : RemoveVertex(M, v) # {} /\ M' = RemoveVertex(M, v) /\ nv' = nv /\ chi' = Euler(M') /\ Log(<<"R", v, 0>>)
Next == /\ Len(hist) < 1 + 3 * Depth
        /\ (DoAddFace \/ DoAddVertex \/ DoFill \/ DoFlip \/ DoSplit \/ DoErase \/ DoRemove)
        /\ (PrintAll \/ Len(hist') = 1 + 3 * Depth => PrintT(<<"SCN">> \o hist'))
IsProper == Proper(M)
Closed == LET B == Boundary(M) IN \A v \in VertsOf(M) :
              Cardinality({e \in B : e[1] = v}) = Cardinality({e \in B : e[2] = v})
Chi == Euler(M) = chi
FlipTwice == \A e \in Edges(M) : CanFlip(M, e) =>
                LET N == Flip(M, e) d == CHOOSE d \in Edges(N) : d \notin Edges(M)
                IN Proper(N) /\ Boundary(N) = Boundary(M) /\ CanFlip(N, d) /\ Flip(N, d) = M
Refine == /\ \A f \in M : Boundary(AddVertex(M, f, nv + 1)) = Boundary(M)
          /\ \A e \in Edges(M) : CanSplit(M, e) /\ Rev(e) \in Edges(M) => Boundary(Split(M, e, nv + 1)) = Boundary(M)
\* the fan of an inner vertex is closed: as many faces as neighbours
Fans == \A v \in VertsOf(M) : Umbrella(M, v) =>
            Cardinality({e[1] : e \in {x \in Edges(M) : x[2] = v}}) = Cardinality(WithVertex(M, v))
=============================================================================
