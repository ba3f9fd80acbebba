--------------------------- MODULE TraceHalfEdge ---------------------------
(***************************************************************************)
(* Conformance of the half-edge mesh editors and getters.  The state is    *)
(* the recorded mesh; each recorded mesh has to be well formed and to be   *)
(* the image of the previous one by the edit.  `vok` says whether the      *)
(* vertices' own half-edges are up to date (deletions leave them to        *)
(* repairVertexEdges, as documented).                                      *)
(***************************************************************************)
EXTENDS TraceBase, Rat, HalfEdge
Starts == << {<<1, 2, 3>>},
             {<<1, 2, 3>>, <<1, 3, 4>>},
             {<<1, 2, 4>>, <<2, 3, 4>>, <<1, 4, 3>>},
             {<<1, 2, 3, 4>>},
             {<<1, 2, 3>>, <<1, 4, 2>>, <<2, 4, 3>>, <<1, 3, 4>>} >>
\* the vertices' half-edges that were right stay right
Good(o, m) == Structure(m) /\ (o.vok => VertexEdges(m))
NewV(o, w) == w \notin {o.m.V[i][1] : i \in 1..Len(o.m.V)}
Coords(m, v) == m.V[CHOOSE i \in 1..Len(m.V) : m.V[i][1] = v][3]
\* vertices do not move
Still(o, m) == \A i \in 1..Len(m.V) : \A j \in 1..Len(o.m.V) : m.V[i][1] = o.m.V[j][1] => m.V[i][3] = o.m.V[j][3]
Known(o, m) == \A i \in 1..Len(m.V) : m.V[i][1] \in {o.m.V[j][1] : j \in 1..Len(o.m.V)}
Become(o, e, N) == Abs(e.m) = N /\ Still(o, e.m)
Ids(m) == {m.F[i][1] : i \in 1..Len(m.F)}
CycOf(m, f) == LET i == CHOOSE i \in 1..Len(m.F) : m.F[i][1] = f IN Cycle(m, m.F[i])
LoopIds(m, f) == LET i == CHOOSE i \in 1..Len(m.F) : m.F[i][1] = f IN LoopOf(m, m.F[i])
Rots(q) == {RotTo(q, i) : i \in 1..Len(q)}
Mid(m, e, w) == LET a == VOf(Coords(m, e[1])) b == VOf(Coords(m, e[2])) IN VEq(VScale(RDiv(1, 2), VAdd(a, b)), VOf(Coords(m, w)))
Inj(q) == Cardinality(SetOf(q)) = Len(q)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* lists of half-edges that are closed loops partitioning B
Loops(m, ls, B) ==
    LET H == HE(m) IN
    /\ Inj(Flat(ls)) /\ SetOf(Flat(ls)) = B
    /\ \A l \in SetOf(ls) : /\ Len(l) > 0
                            /\ \A i \in 1..Len(l) : End(H, l[i]) = Start(H, l[(i % Len(l)) + 1])
FaceFan(o, v) == LET H == HE(o.m)
                     i == CHOOSE i \in 1..Len(o.m.V) : o.m.V[i][1] = v
                     f == Fac(H, o.m.V[i][2])
                     S == Fan(Abs(o.m), v, CycOf(o.m, f))
                 IN {g \in Ids(o.m) : CycOf(o.m, g) \in S}
Indexed(q, S) == /\ {q[i][1] : i \in 1..Len(q)} = S /\ Len(q) = Cardinality(S)
                 /\ {q[i][2] : i \in 1..Len(q)} = 0..(Len(q) - 1)
Ring(n, i, d) == ((i + d - 1 + n) % n) + 1

Edit(o, e) ==
    LET M == Abs(o.m) IN
    CASE e.op = "start"   -> Structure(e.m) /\ VertexEdges(e.m) /\ Abs(e.m) = Starts[e.s]
      [] e.op = "addface" -> LET x == <<e.a, e.b>> IN
                             /\ Good(o, e.m)
                             /\ IF CanAddFace(M, x)
                                THEN \E w \in VertsOf(Abs(e.m)) : NewV(o, w) /\ Become(o, e, AddFace(M, x, w)) /\ e.r \in Ids(e.m) \ Ids(o.m)
                                ELSE e.r = 0 /\ Become(o, e, M)
      [] e.op = "wrongface" -> e.r = 0 /\ e.m = o.m
      [] e.op = "flipfar" -> e.m = o.m
      [] e.op = "addvertex" -> Good(o, e.m) /\ NewV(o, e.w) /\ Become(o, e, AddVertex(M, Norm(e.f), e.w)) /\ e.n = Len(e.f)
      [] e.op = "fill"    -> LET S == {Norm(c) : c \in SetOf(e.fs)} IN
                             /\ Structure(e.m) /\ CanFill(M, S)
                             /\ e.nl = 1 /\ NewV(o, e.w) /\ Become(o, e, Fill(M, S, e.w))
      [] e.op = "flip"    -> Good(o, e.m) /\ CanFlip(M, <<e.a, e.b>>) /\ Become(o, e, Flip(M, <<e.a, e.b>>)) /\ Ids(e.m) = Ids(o.m)
      [] e.op = "split"   -> /\ Good(o, e.m) /\ CanSplit(M, <<e.a, e.b>>) /\ NewV(o, e.w)
                             /\ Become(o, e, Split(M, <<e.a, e.b>>, e.w)) /\ Mid(e.m, <<e.a, e.b>>, e.w)
      [] e.op = "erase"   -> Structure(e.m) /\ Become(o, e, Erase(M, Norm(e.f))) /\ e.nx
      [] e.op = "remv"    -> Structure(e.m) /\ Become(o, e, RemoveVertex(M, e.v)) /\ e.n = Cardinality(WithVertex(M, e.v))
      [] e.op = "repair"  -> WellFormed(e.m) /\ e.m.H = o.m.H /\ e.m.F = o.m.F /\ Still(o, e.m)

Getter(o, e) ==
    LET m == o.m H == HE(m) IN
    CASE e.op = "gface"  -> LET L == LoopIds(m, e.f) VL == [i \in 1..Len(L) |-> End(H, L[i])] IN
                            /\ e.es \in Rots(L) /\ e.vs \in Rots(VL) /\ e.it \in Rots(L) /\ e.i2 \in Rots(L)
                            /\ Len(e.fc) = Len(e.vs) /\ \A i \in 1..Len(e.vs) : e.fc[i] = Coords(m, e.vs[i])
                            \* the three edges, in some cyclic order
                            /\ e.tri => /\ SetOf(e.te) = SetOf(L) /\ Len(e.te) = 3 /\ SetOf(e.tv) = SetOf(VL)
                                        /\ \A i \in 1..3 : End(H, e.te[i]) = e.tv[i] /\ e.tc[i] = Coords(m, e.tv[i])
      [] e.op = "gcommon" -> LET C == {h \in DOMAIN H : Fac(H, h) = e.f /\ Opp(H, h) # 0 /\ Fac(H, Opp(H, h)) = e.g} IN
                             IF C = {} THEN e.r = 0 /\ e.r1 = 0 /\ e.r2 = 0
                             ELSE e.r \in C /\ e.r1 \in C /\ e.r2 = Opp(H, e.r1)
      [] e.op = "gfan"    -> Inj(e.r) /\ SetOf(e.r) = FaceFan(o, e.v)
                             /\ (Umbrella(Abs(m), e.v) => e.bnd = ~Interior(Abs(m), e.v))
      [] e.op = "gfind"   -> LET C == {h \in DOMAIN H : Start(H, h) = e.a /\ End(H, h) = e.b /\ Fac(H, h) \in FaceFan(o, e.a)} IN
                             IF C = {} THEN e.r = 0 ELSE e.r \in C
      [] e.op = "gnbf"    -> LET L == LoopIds(m, e.f) W == SelectSeq([i \in 1..Len(L) |-> IF Opp(H, L[i]) = 0 THEN 0 ELSE Fac(H, Opp(H, L[i]))], LAMBDA x : x # 0) IN
                             /\ Len(e.r) = Len(W) /\ \A x \in SetOf(e.r) \cup SetOf(W) : Cardinality({i \in 1..Len(W) : W[i] = x}) = Cardinality({i \in 1..Len(e.r) : e.r[i] = x})
                             /\ e.nf = (IF Opp(H, e.h) = 0 THEN 0 ELSE Fac(H, Opp(H, e.h)))
                             /\ e.pf = (IF Opp(H, Nxt(H, e.h)) = 0 THEN 0 ELSE Fac(H, Opp(H, Nxt(H, e.h))))
      [] e.op = "gbound"  -> LET B == {h \in DOMAIN H : Fac(H, h) \in SetOf(e.S) /\ (Opp(H, h) = 0 \/ Fac(H, Opp(H, h)) \notin SetOf(e.S))} IN
                             /\ Inj(e.b) /\ SetOf(e.b) = B /\ e.left = 0
                             /\ Loops(m, e.loops, B) /\ Loops(m, e.l2, B)
                             /\ (B = {} <=> e.l1 = <<>>)
                             /\ (B # {} => Inj(e.l1) /\ SetOf(e.l1) \subseteq B /\ Loops(m, <<e.l1>>, SetOf(e.l1)))
      [] e.op = "gmaps"   -> LET W == {End(H, h) : h \in DOMAIN H} IN
                             Indexed(e.vm, W) /\ Indexed(e.em, DOMAIN H) /\ Inj(e.vv) /\ SetOf(e.vv) = W
      [] e.op = "gedge"   -> LET L == LoopIds(m, e.f) C == {h \in SetOf(L) : End(H, h) = e.v} IN
                             IF C = {} THEN e.r = 0 ELSE e.r \in C
      \* the vertices that share an edge with v
      [] e.op = "gnbv"    -> Inj(e.r) /\ SetOf(e.r) = UNION {{x[1], x[2]} : x \in {y \in UNION {FaceEdges(CycOf(m, f)) : f \in FaceFan(o, e.v)} : e.v \in {y[1], y[2]}}} \ {e.v}
      [] e.op = "gloop"   -> LET n == e.n IN
                             /\ e.ao = [i \in 1..n |-> i] /\ e.ax = e.c
                             /\ \A i \in 1..n : e.an[i] = Ring(n, i, 1) /\ e.ap[i] = Ring(n, i, -1)
                             \* reversed: the list runs backwards, and so do next and previous
                             /\ \A i \in 1..n : e.bo[i] = n + 1 - i /\ e.bx[i] = e.c[n + 1 - i]
                             /\ \A i \in 1..n : e.bn[i] = e.bo[Ring(n, i, 1)] /\ e.bp[i] = e.bo[Ring(n, i, -1)]
                             /\ e.co = e.ao /\ e.cn = e.an /\ e.cp = e.ap

EditOps == {"start", "addface", "wrongface", "flipfar", "addvertex", "fill", "flip", "split", "erase", "remv", "repair"}
GetOps == {"gface", "gcommon", "gfan", "gfind", "gnbf", "gbound", "gmaps", "gedge", "gloop", "gnbv"}
Allowed(t, o, e) == IF e.op \in EditOps THEN Edit(o, e) ELSE e.op \in GetOps /\ Getter(o, e)
Effect(t, o, e) == IF e.op \in EditOps
                   THEN [m |-> e.m, vok |-> IF e.op \in {"fill", "erase", "remv"} THEN FALSE ELSE IF e.op \in {"start", "repair"} THEN TRUE ELSE o.vok]
                   ELSE o
Init == TraceInit(LAMBDA t : [m |-> [F |-> <<>>, H |-> <<>>, V |-> <<>>], vok |-> TRUE])
Next == TraceStep(Allowed, Effect)
=============================================================================
