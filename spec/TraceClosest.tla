---------------------------- MODULE TraceClosest ----------------------------
(***************************************************************************)
(* Conformance of the searches of closest points (property C20).           *)
(***************************************************************************)
EXTENDS TraceBase, Closest
N2(v) == RDot(v, v)
\* all samples of a coarse grid, some of a fine one
Steps(n) == IF n <= 12 THEN 0..(n - 1) ELSE {i \in 0..(n - 1) : i % 5 = 0 \/ i = n - 1}
Grid1(b, n) == {Station(b[1], b[2], n, j) : j \in IF n <= 30 THEN 0..(n - 1) ELSE Steps(n)}
GridN(b, n) == {Station(b[1], b[2], n, j) : j \in Steps(n)}
Starts(e, B) ==
    IF Len(e.gs) > 0 THEN {VOf(e.gs)}
    ELSE CASE Len(B) = 1 -> {<<u>> : u \in Grid1(B[1], e.ns[1])}
           [] Len(B) = 2 -> {<<u, v>> : u \in GridN(B[1], e.ns[1]), v \in GridN(B[2], e.ns[2])}
           [] Len(B) = 3 -> {<<u, v, w>> : u \in GridN(B[1], e.ns[1]), v \in GridN(B[2], e.ns[2]), w \in GridN(B[3], e.ns[3])}
\* a crease: degree one with inner knots
Crease(p, k) == p = 1 /\ Len(k) > 4
Tiny == R("1/1000000000")
\* the distance returned; the searches are known to return its square (event dist and findings/known_findings.txt)
Distance(d, d2, m) == RNear(d, RSqrt(d2), m) \/ RNear(d, d2, RMul(m, RMax(1, RSqrt(d2))))
\* a quasi-Newton search, and any along the narrow valleys of several unknowns, may stop early, but not where it started unless the start is critical (a bound in the way included)
Downhill(x, d2, B, F(_), G(_, _), m) ==
    LET f == TLCEval(F(x)) s2 == N2(f)
        steep(i) == LET g == G(x, i) s == RDot(f, g) big == RMul(R("1/10"), RSqrt(RMul(N2(g), s2)))
                    IN \/ RLt(big, s) /\ RLt(B[i][1], x[i])
                       \/ RLt(s, RNeg(big)) /\ RLt(x[i], B[i][2])
    IN (RLt(RMul(R("1/100"), RMul(m, R("1000000000"))), RSqrt(s2)) /\ \E i \in 1..Len(x) : steep(i)) => RLt(d2, s2)
\* r: parameters, then distance.  sc is the size of the shapes
Found(e, x, d, B, F(_), G(_, _), smooth, sc) ==
    LET f == TLCEval(F(x)) d2 == N2(f) n == Len(x)
        m == RMul(Tiny, sc)
        range(i) == RSub(B[i][2], B[i][1])
        step(i) == RMul(R("1/100000"), range(i))
        slope(y, i) == RDot(F(y), G(y, i))
        tol(y, i) == LET g == G(y, i) IN RAdd(RMul(RMul(R("1/1000000"), range(i)), N2(g)), RMul(R("1/1000000"), RSqrt(RMul(N2(g), d2))))
    IN /\ VFin(x) /\ RFin(d) /\ Inside(x, B)
       /\ Distance(d, d2, m)
       /\ \A y \in Starts(e, B) : RLe(d2, RAdd(RMul(N2(F(y)), RAdd(1, Tiny)), RMul(m, m)))
       /\ smooth /\ (e.alg = "lbfgs" \/ n > 1) /\ Len(e.gs) > 0 => Downhill(VOf(e.gs), d2, B, F, G, m)
       /\ smooth /\ e.alg # "lbfgs" /\ n = 1 => \A i \in 1..n : Valley(x, B, i, step(i), LAMBDA y : slope(y, i), LAMBDA y : tol(y, i))
FoundCP(e) ==
    LET c == CurveOf(e.c) P == VOf(e.P) r == e.r B == <<CurveBox(c)>>
    IN Found(e, <<R(r[1])>>, R(r[2]), B, LAMBDA x : CP(c, P, x), LAMBDA x, i : CPd(c, x, i), TRUE, RMax(PolesScale(c.P), RMaxAbs(P)))
SurfBox(s) == <<<<s.ku[1], s.ku[Len(s.ku)]>>, <<s.kv[1], s.kv[Len(s.kv)]>>>>
FoundSP(e) ==
    LET s == SurfOf(e.s) P == VOf(e.P) r == e.r B == SurfBox(s)
    IN Found(e, <<R(r[1]), R(r[2])>>, R(r[3]), B, LAMBDA x : SP(s, P, x), LAMBDA x, i : SPd(s, x, i),
             ~Crease(s.p, s.ku) /\ ~Crease(s.q, s.kv), RMax(PolesScale(s.P), RMaxAbs(P)))
FoundCC(e) ==
    LET a == CurveOf(e.c) b == CurveOf(e.e) r == e.r B == <<CurveBox(a), CurveBox(b)>>
    IN Found(e, <<R(r[1]), R(r[2])>>, R(r[3]), B, LAMBDA x : CC(a, b, x), LAMBDA x, i : CCd(a, b, x, i),
             ~Crease(a.p, a.k) /\ ~Crease(b.p, b.k), RMax(PolesScale(a.P), PolesScale(b.P)))
FoundSC(e) ==
    LET s == SurfOf(e.s) c == CurveOf(e.c) r == e.r B == SurfBox(s) \o <<CurveBox(c)>>
    IN Found(e, <<R(r[1]), R(r[2]), R(r[3])>>, R(r[4]), B, LAMBDA x : SC(s, c, x), LAMBDA x, i : SCd(s, c, x, i),
             ~Crease(s.p, s.ku) /\ ~Crease(s.q, s.kv) /\ ~Crease(c.p, c.k), RMax(PolesScale(s.P), PolesScale(c.P)))
\* a solver may give up, but nothing else may be thrown
Result(e, ok) == IF e.x = "" THEN ok ELSE e.alg = "lbfgs" /\ e.x = "runtime_error"
LineOf(a, b) == [o |-> a, d |-> Unit(VSub(b, a))]
Lines(e) ==
    LET l == LineOf(VOf(e.a), VOf(e.b)) m == LineOf(VOf(e.c), VOf(e.d)) r == LinesCross(l, m) t == RMul(Tiny, RMax(1, RMaxAbs(r)))
    IN VFin(e.r) /\ VNear(VOf(e.r), r, t)
\* deviation of points from a curve: the largest and the mean of their distances
Dev(e) ==
    LET c == CurveOf(e.c) n == Len(e.pts)
        d == [i \in 1..n |-> R(e.rs[i][2])]
        big == RMaxAbs(d)
    IN /\ \A i \in 1..n : LET f == CP(c, VOf(e.pts[i]), <<R(e.rs[i][1])>>) IN Distance(d[i], N2(f), RMul(Tiny, PolesScale(c.P)))
       /\ REq(R(e.max), big) /\ RNear(R(e.avg), RDiv(RSum(d), n), RMul(Tiny, RMax(1, big)))
       /\ (REq(big, 0) /\ REq(R(e.u), 0)) \/ \E i \in 1..n : REq(R(e.u), R(e.rs[i][1])) /\ REq(d[i], big)
Allowed(t, o, e) ==
    CASE e.op = "cp" -> Result(e, FoundCP(e))
      [] e.op = "sp" -> Result(e, FoundSP(e))
      [] e.op = "cc" -> Result(e, FoundCC(e))
      [] e.op = "sc" -> Result(e, FoundSC(e))
      [] e.op = "ll" -> Lines(e)
      [] e.op = "lst" -> e.r = e.one
      [] e.op = "dev" -> Dev(e)
      [] e.op = "dist" -> RNear(R(e.d), R(e.want), R("1/1000000"))
      [] OTHER -> FALSE
Init == TraceInit(LAMBDA t : <<>>)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
