----------------------------- MODULE MC_Affine ------------------------------
(***************************************************************************)
(* Every sequence of moves of a small curve or surface: moving poles moves *)
(* every point and derivative, rational or not; what each move keeps;      *)
(* frames are carried onto frames.  The sequences are the scenarios.       *)
(***************************************************************************)
EXTENDS Affine
CONSTANTS Depth
VARIABLES g0, g, a, ops, rigid
Bz(P, rat) == [p |-> Len(P) - 1, k |-> [i \in 1..(2 * Len(P)) |-> IF i <= Len(P) THEN R(0) ELSE R(1)], P |-> [i \in 1..Len(P) |-> VOf(P[i])], rat |-> rat]
C2 == Bz(<<<<0, 0>>, <<1, 2>>, <<3, -1>>>>, FALSE)
R2 == Bz(<<<<1, 0, 1>>, <<2, 4, 2>>, <<1, -1, "1/2">>>>, TRUE)
C3 == Bz(<<<<0, 0, 1>>, <<1, 2, 0>>, <<3, -1, 2>>>>, FALSE)
R3 == Bz(<<<<1, 0, 2, 1>>, <<2, 4, -2, 2>>, <<1, -1, 0, "1/2">>>>, TRUE)
Sf == [p |-> 1, q |-> 1, ku |-> VOf(<<0, 0, 1, 1>>), kv |-> VOf(<<0, 0, 1, 1>>), P |-> MOf(<<<<0, 0, 0>>, <<1, 0, 2>>, <<0, 3, 1>>, <<2, 1, -4>>>>), rat |-> FALSE]
Rs == [p |-> 1, q |-> 1, ku |-> VOf(<<0, 0, 1, 1>>), kv |-> VOf(<<0, 0, 1, 1>>), P |-> MOf(<<<<0, 0, 0, 1>>, <<1, 0, 2, 2>>, <<0, 3, 1, "1/2">>, <<2, 1, -4, 3>>>>), rat |-> TRUE]
Geo(n) == CASE n = "c2" -> C2 [] n = "r2" -> R2 [] n = "c3" -> C3 [] n = "r3" -> R3 [] n = "s3" -> Sf [] n = "rs3" -> Rs
Surf == ops[1] \in {"s3", "rs3"}
Dim == IF ops[1] \in {"c2", "r2"} THEN 2 ELSE 3
Init == \E n \in {"c2", "r2", "c3", "r3", "s3", "rs3"} : /\ ops = <<n>> /\ g0 = Geo(n) /\ g = g0 /\ a = Id(IF n \in {"c2", "r2"} THEN 2 ELSE 3) /\ rigid = TRUE
Do(o, b, r) == ops' = Append(ops, o) /\ g' = Move(g, b) /\ a' = Of(b, a) /\ rigid' = (rigid /\ r) /\ g0' = g0 /\ PrintT(<<"SCN">> \o ops')
V(x, y, z) == IF Dim = 2 THEN VOf(<<x, y>>) ELSE VOf(<<x, y, z>>)
F == [o |-> VOf(<<1, 2, 3>>), z |-> VOf(<<0, 2, 0>>), x |-> VOf(<<1, 0, 1>>)]
G == [o |-> VOf(<<-1, 0, 2>>), z |-> VOf(<<1, 2, 2>>), x |-> VOf(<<2, -2, 1>>)]
Next == /\ Len(ops) <= Depth
        /\ \/ Do("translate", Shift(V(1, -2, 3)), TRUE)
           \/ Dim = 2 /\ Do("rotate", About(Turn2(R("3/4")), VZero(2)), TRUE)
           \/ Dim = 2 /\ Do("rotateO", About(Turn2(R(2)), VOf(<<1, 1>>)), TRUE)
           \/ Dim = 3 /\ Do("rotate3", About(Turn3(R("3/4"), VOf(<<1, 2, 2>>)), VZero(3)), TRUE)
           \/ Do("scale", About(Stretch(Dim, R("3/2")), V(1, 0, -1)), FALSE)
           \/ \E k \in 1..Dim : Do("scale1", About(Stretch1(Dim, R(-2), k), V(2, 1, 0)), FALSE)
           \/ Dim = 3 /\ Do("frame", FrameMove(F), TRUE)
           \/ Dim = 3 /\ Do("frames", FrameToFrame(F, G), TRUE)
Us == {R(0), R("1/3"), R("3/4"), R(1)}
E == R("1/1000000000000")
D(c, u, n) == IF Surf THEN SValue(c, u, RMul(u, u), n % 2, n \div 2) ELSE Ders(c, u, n)[n + 1]
\* every point is moved, every derivative turned
MovesPoints == \A u \in Us : VNear(D(g, u, 0), At(a, D(g0, u, 0)), E) /\ \A n \in 1..2 : VNear(D(g, u, n), MV(a.m, D(g0, u, n)), E)
Weights == g.rat => \A i \in 1..Len(g.P) : REq(g.P[i][Dim + 1], g0.P[i][Dim + 1])
\* a rigid move keeps lengths and orientation
Rigid == rigid => /\ \A i, j \in 1..Dim : RNear(RDot(a.m[i], a.m[j]), IF i = j THEN R(1) ELSE R(0), E)
                  /\ (Dim = 3 => RNear(RDot(Cross(a.m[1], a.m[2]), a.m[3]), R(1), E))
                  /\ (Dim = 2 => RNear(RSub(RMul(a.m[1][1], a.m[2][2]), RMul(a.m[1][2], a.m[2][1])), R(1), E))
Frames == LET h == FrameToFrame(F, G) IN
          /\ VNear(At(h, F.o), G.o, E) /\ VNear(MV(h.m, Unit(F.z)), Unit(G.z), E) /\ VNear(MV(h.m, Unit(F.x)), Unit(G.x), E)
          /\ LET k == Of(FrameToFrame(G, F), h) IN VNear(k.t, VZero(3), E) /\ \A i \in 1..3 : VNear(k.m[i], Ident(3)[i], E)
          /\ LET k == Of(FrameToFrame(F, G), FrameMove(F)) l == FrameMove(G) IN VNear(k.t, l.t, E) /\ \A i \in 1..3 : VNear(k.m[i], l.m[i], E)
=============================================================================
