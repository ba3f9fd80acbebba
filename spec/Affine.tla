------------------------------- MODULE Affine -------------------------------
(***************************************************************************)
(* Moves of points, curves and surfaces.  A move is an affine map          *)
(*   a = [m |-> rows of a square matrix, t |-> vector],  x |-> m x + t.    *)
(* A B-spline is moved by moving its poles, the weights of a rational one  *)
(* being kept: Move(c, a) has the points a(c(u)).                          *)
(***************************************************************************)
EXTENDS Derived
MV(m, x) == [i \in 1..Len(m) |-> RDot(m[i], x)]
MMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> RSum([k \in 1..Len(b) |-> RMul(a[i][k], b[k][j])])]]
MT(a) == [i \in 1..Len(a[1]) |-> [j \in 1..Len(a) |-> a[j][i]]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)]]
At(a, x) == VAdd(MV(a.m, x), a.t)
Of(b, a) == TLCEval([m |-> MMul(b.m, a.m), t |-> VAdd(MV(b.m, a.t), b.t)])       \* a then b
Id(n) == [m |-> Ident(n), t |-> VZero(n)]
Shift(v) == [m |-> Ident(Len(v)), t |-> v]
\* the linear map m about the point o
About(m, o) == [m |-> m, t |-> VSub(o, MV(m, o))]
Turn2(a) == LET c == RCos(a) s == RSin(a) IN <<<<c, RNeg(s)>>, <<s, c>>>>
Turn3(a, ax) == \* Rodrigues: x cos + (z ^ x) sin + z (z.x)(1 - cos)
    LET z == Unit(ax) c == RCos(a) s == RSin(a) K == <<<<R(0), RNeg(z[3]), z[2]>>, <<z[3], R(0), RNeg(z[1])>>, <<RNeg(z[2]), z[1], R(0)>>>>
    IN TLCEval([i \in 1..3 |-> [j \in 1..3 |-> RAdd(RAdd(IF i = j THEN c ELSE R(0), RMul(s, K[i][j])), RMul(RMul(z[i], z[j]), RSub(1, c)))]])
Stretch(n, s) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN s ELSE R(0)]]
Stretch1(n, s, k) == [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN R(0) ELSE IF i = k THEN s ELSE R(1)]]
\* a frame [o, z, x]; the move of the reference frame onto it, of a frame onto a frame
FrameM(f) == LET z == Unit(f.z) x == Unit(f.x) IN MT(<<x, Cross(z, x), z>>)
FrameMove(f) == [m |-> FrameM(f), t |-> f.o]
FrameToFrame(f, g) == LET m == MMul(FrameM(g), MT(FrameM(f))) IN [m |-> m, t |-> VSub(g.o, MV(m, f.o))]
\* moved poles; a rational pole is (w x, w)
MovePole(P, a, rat) == LET n == Len(a.t) IN
    IF rat THEN LET w == P[n + 1] IN Append(VAdd(MV(a.m, SubSeq(P, 1, n)), VScale(w, a.t)), w) ELSE At(a, P)
Move(c, a) == [c EXCEPT !.P = TLCEval([i \in 1..Len(c.P) |-> MovePole(c.P[i], a, c.rat)])]
\* a move of n-dimensional points from a recorded event
MoveOf(e, n) ==
    CASE e.k = "translate" -> Shift(VOf(e.v))
      [] e.k = "rotate"    -> About(Turn2(R(e.a)), VZero(2))
      [] e.k = "rotateO"   -> About(Turn2(R(e.a)), VOf(e.o))
      [] e.k = "rotate3"   -> About(Turn3(R(e.a), VOf(e.ax)), VZero(3))
      [] e.k = "scale"     -> About(Stretch(n, R(e.s)), VOf(e.o))
      [] e.k = "scale1"    -> About(Stretch1(n, R(e.s), e.i + 1), VOf(e.o))
      [] e.k = "frame"     -> FrameMove([o |-> VOf(e.f[1]), z |-> VOf(e.f[2]), x |-> VOf(e.f[3])])
      [] e.k = "frames"    -> FrameToFrame([o |-> VOf(e.f[1]), z |-> VOf(e.f[2]), x |-> VOf(e.f[3])], [o |-> VOf(e.g[1]), z |-> VOf(e.g[2]), x |-> VOf(e.g[3])])
=============================================================================
