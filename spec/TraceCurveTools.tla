-------------------------- MODULE TraceCurveTools --------------------------
(***************************************************************************)
(* Conformance of the operations on several curves / surfaces.  Every      *)
(* event records the inputs (c or s) and the results (r) of one real call. *)
(***************************************************************************)
EXTENDS TraceBase, CurveTools

Eps(t) == IF t.fl THEN R("1/1000") ELSE R("1/1000000000")
KTol(t, k) == RMul(IF t.fl THEN R("1/20000") ELSE R("1/100000000000"), RMax(1, RMaxAbs(k)))
MinW(c) == IF ~c.rat THEN R(1)
           ELSE LET n == Len(c.P) IN RDiv(1, RMaxAbs([i \in 1..n |-> RDiv(1, Wgt(c.P[i]))]))
Tol(t, c) == RMul(Eps(t), RDiv(PolesScale(c.P), RMin(1, MinW(c))))
FinC(x) == VFin(x.k) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
FinS(x) == VFin(x.ku) /\ VFin(x.kv) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
Weights(d) == ~d.rat \/ \A i \in 1..Len(d.P) : RLt(0, Wgt(d.P[i]))

Clamp(x, a, b) == RMin(b, RMax(a, x))
\* parameter u of [a2,b2] -> [a1,b1]
Lin(u, a2, b2, a1, b1) == Clamp(RAdd(a1, RMul(RDiv(RSub(b1, a1), RSub(b2, a2)), RSub(u, a2))), a1, b1)
M(c) == IF c.rat THEN c.p + 2 ELSE c.p + 1

\* knots merged within the tolerance
MultN(k, u, tol) == Cardinality({i \in 1..Len(k) : RLe(RAbs(RSub(k[i], u)), tol)})
RECURSIVE MaxMult(_, _, _, _)
MaxMult(ks, u, tol, i) == IF i = 0 THEN 0 ELSE Max2(MultN(ks[i], u, tol), MaxMult(ks, u, tol, i - 1))
\* ks: input knots over the common range; K the resulting knots
KnotsMerged(ks, K, tol) ==
    \A j \in 1..Len(ks) + 1 :
        LET k == IF j > Len(ks) THEN K ELSE ks[j]
        IN \A i \in 1..Len(k) : MultN(K, k[i], tol) = MaxMult(ks, k[i], tol, Len(ks))
UnifiedK(t, ks, rs) ==       \* knots of the inputs, of the results
    LET tol == KTol(t, ks[1])
    IN /\ \A i \in 1..Len(rs) : VNear(rs[i], rs[1], tol)
       /\ KnotsMerged(TLCEval(OnFirst(ks)), rs[1], tol)

Ks(cs) == [i \in 1..Len(cs) |-> cs[i].k]
UdegOk(t, cs, rs) ==
    \A i \in 1..Len(cs) :
        /\ rs[i].p = MaxDegree(cs, Len(cs))
        /\ VNear(rs[i].k, UpKnots(cs[i], rs[i].p - cs[i].p), KTol(t, cs[i].k))
        /\ SameShape(cs[i], rs[i], LAMBDA u : u, M(rs[i]), Tol(t, cs[i]))
UnifyOk(t, cs, rs) ==
    /\ \A i \in 1..Len(cs) : rs[i].p = MaxDegree(cs, Len(cs))
    /\ UnifiedK(t, [i \in 1..Len(cs) |-> UpKnots(cs[i], rs[i].p - cs[i].p)], Ks(rs))
    /\ \A i \in 1..Len(cs) :
          SameShape(cs[i], rs[i], LAMBDA u : Lin(u, LoU(rs[i]), HiU(rs[i]), LoU(cs[i]), HiU(cs[i])), M(rs[i]), Tol(t, cs[i]))

\* r is c1 followed by c2
JoinOk(t, c1, c2, r) ==
    LET p == Max2(c1.p, c2.p)
        h == HiU(c1)
        tol == RMax(Tol(t, c1), Tol(t, c2))
    IN /\ r.p = p
       /\ VNear(r.k, JoinKnots(UpKnots(c1, p - c1.p), UpKnots(c2, p - c2.p), p), RMul(4, RMax(KTol(t, c1.k), KTol(t, c2.k))))
       /\ \A s \in Samples(r.k, M(r)) :
             LET u == SampleU(r.k, M(r), s)
                 w == IF RLt(u, h) THEN Point(c1, u) ELSE Point(c2, Clamp(RAdd(RSub(u, h), LoU(c2)), LoU(c2), HiU(c2)))
             IN VNear(Point(r, u), w, tol)
       /\ VNear(Point(r, HiU(r)), Point(c2, HiU(c2)), tol) /\ VNear(Point(r, LoU(r)), Point(c1, LoU(c1)), tol)

\* derivatives at a parameter, from the left / from the right
RECURSIVE SpanLeftRec(_, _, _)
SpanLeftRec(k, s, u) == IF RLt(k[s], k[s + 1]) /\ RLt(k[s], u) THEN s ELSE SpanLeftRec(k, s - 1, u)
DersLeft(c, u, n) == DersAt(c, SpanLeftRec(c.k, Len(c.k) - c.p - 1, u), u, n)
SameDers(A, B, n, sc) == \A d \in 1..(n + 1) : VNear(A[d], B[d], sc[d])
DTol(t, c1, u1, c2, u2, n) == [d \in 1..(n + 1) |-> RMul(R("1/100000000"), RMul(10, RMax(DScale(c1, u1, d - 1), DScale(c2, u2, d - 1))))]

\* c coincides with r on the part [lo,hi] of r, u of r being u + sh of c
Contains(t, c, r, lo, hi, sh) ==
    \A s \in Samples(r.k, M(r)) :
        LET u == SampleU(r.k, M(r), s)
        IN (RLe(lo, u) /\ RLe(u, hi)) => VNear(Point(r, u), Point(c, Clamp(RAdd(u, sh), LoU(c), HiU(c))), Tol(t, c))
UnitV(v) == VScale(RDiv(1, RSqrt(RDot(v, v))), v)
Cont(c, mc) == IF mc < 0 THEN c.p - 1 ELSE Min2(c.p - 1, mc)
ExtendOk(t, c, r, e, pt) ==
    LET n == Cont(c, e.mc)
        ktol == RMul(8, RMax(KTol(t, c.k), KTol(t, r.k)))
        a == LoU(c) b == HiU(c) a2 == LoU(r) b2 == HiU(r)
        tol == RMul(100, RMax(Tol(t, c), Tol(t, r)))
    IN /\ r.p = c.p
       /\ IF e.end THEN RNear(a2, a, ktol) /\ RLt(b, b2) ELSE RNear(b2, b, ktol) /\ RLt(a2, a)
       /\ MultN(r.k, IF e.end THEN b ELSE a, ktol) >= 1
       /\ Contains(t, c, r, a, b, R(0))
       /\ VNear(Point(r, IF e.end THEN b2 ELSE a2), pt, tol)
       /\ IF e.end THEN LET u == r.k[CHOOSE i \in 1..Len(r.k) : RNear(r.k[i], b, ktol)]
                        IN SameDers(Ders(r, u, n), Ders(c, b, n), n, DTol(t, r, u, c, b, n))
          ELSE LET u == r.k[CHOOSE i \in 1..Len(r.k) : RNear(r.k[i], a, ktol)]
               IN SameDers(DersLeft(r, u, n), Ders(c, a, n), n, DTol(t, r, u, c, a, n))
       /\ (e.nat /\ c.p > 2) =>
             LET u == IF e.end THEN b2 ELSE a2
             IN VNear(Value(r, u, 2), VZero(Len(Point(r, u))), RMul(R("1/10000000"), DScale(r, u, 2)))
ConnectOk(t, c1, c2, r, n) ==
    /\ ~r.rat
    /\ SameDers(Ders(c1, HiU(c1), n), Ders(r, LoU(r), n), n, DTol(t, c1, HiU(c1), r, LoU(r), n))
    /\ SameDers(Ders(c2, LoU(c2), n), Ders(r, HiU(r), n), n, DTol(t, c2, LoU(c2), r, HiU(r), n))

CurvesOk(t, e) ==
    LET cs == TLCEval([i \in 1..Len(e.c) |-> CurveOf(e.c[i])])
        rs == TLCEval([i \in 1..Len(e.r) |-> CurveOf(e.r[i])])
    IN /\ \A i \in 1..Len(rs) : FinC(e.r[i]) /\ ValidCurve(rs[i]) /\ Weights(rs[i]) /\ VNear(VOf(e.r[i].b), <<LoU(rs[i]), HiU(rs[i])>>, KTol(t, rs[i].k))
       /\ CASE e.op = "udeg"  -> Len(rs) = Len(cs) /\ UdegOk(t, cs, rs)
            [] e.op = "unify" -> Len(rs) = Len(cs) /\ UnifyOk(t, cs, rs)
            [] e.op = "join"  -> JoinOk(t, cs[1], cs[2], rs[1])
            [] e.op = "rejoin" -> rs[1].p = cs[1].p /\ SameShape(cs[1], rs[1], LAMBDA u : Clamp(u, LoU(cs[1]), HiU(cs[1])), M(rs[1]), RMul(10, Tol(t, cs[1])))
            [] e.op = "adddim" ->
                  /\ rs[1].p = cs[1].p /\ VEq(rs[1].k, cs[1].k)
                  /\ \A s \in Samples(rs[1].k, M(rs[1])) :
                        LET u == SampleU(rs[1].k, M(rs[1]), s) IN VNear(Point(rs[1], u), Append(Point(cs[1], u), R(e.val)), Tol(t, rs[1]))
            [] e.op = "extend" -> ExtendOk(t, cs[1], rs[1], e, VOf(e.pt))
            [] e.op = "extendl" ->
                  LET c == cs[1] u == IF e.end THEN HiU(c) ELSE LoU(c)
                      pt == VAdd(Point(c, u), VScale(RMul(e.l, IF e.end THEN 1 ELSE -1), UnitV(Value(c, u, 1))))
                  IN ExtendOk(t, c, rs[1], e, pt)
            [] e.op = "connect" -> ConnectOk(t, cs[1], cs[2], rs[1], e.n)
            [] OTHER -> FALSE

----------------------------------------------------------------------------
STol(t, s) == RMul(Eps(t), RDiv(PolesScale(s.P), RMin(1, MinW(s))))
\* grid of parameters: m per span and direction, within the limits
SameSurf(s, d, PhiU(_), PhiV(_), InU(_), tol) ==
    \A a \in Samples(d.ku, IF d.rat THEN d.p + 2 ELSE d.p + 1), b \in Samples(d.kv, 2) :
        LET u == SampleU(d.ku, IF d.rat THEN d.p + 2 ELSE d.p + 1, a) v == SampleU(d.kv, 2, b)
        IN InU(u) => VNear(SPoint(d, u, v), SPoint(s, PhiU(u), PhiV(v)), tol)
All(u) == TRUE
SUnifyOk(t, ss, rs) ==
    /\ \A i \in 1..Len(ss) : rs[i].p = ss[i].p /\ rs[i].q = ss[i].q
    /\ UnifiedK(t, [i \in 1..Len(ss) |-> ss[i].ku], [i \in 1..Len(rs) |-> rs[i].ku])
    /\ UnifiedK(t, [i \in 1..Len(ss) |-> ss[i].kv], [i \in 1..Len(rs) |-> rs[i].kv])
    /\ \A i \in 1..Len(ss) :
          SameSurf(ss[i], rs[i],
                   LAMBDA u : Lin(u, SLo(rs[i]), SHi(rs[i]), SLo(ss[i]), SHi(ss[i])),
                   LAMBDA v : Lin(v, SLo(Transpose(rs[i])), SHi(Transpose(rs[i])), SLo(Transpose(ss[i])), SHi(Transpose(ss[i]))), All, STol(t, ss[i]))
SplitOk(t, s0, e, r0) ==
    LET T(x) == IF e.dir = 0 THEN x ELSE Transpose(x)
        s == T(s0) r1 == T(r0[1]) r2 == T(r0[2]) x == R(e.x)
    IN /\ VEq(<<SLo(r1), SHi(r1), SLo(r2), SHi(r2)>>, <<SLo(s), x, x, SHi(s)>>)
       /\ \A r \in {r1, r2} : r.p = s.p /\ r.q = s.q /\ VEq(r.kv, s.kv) /\ SameSurf(s, r, LAMBDA u : u, LAMBDA v : v, All, STol(t, s))
SJoinOk(t, s1, s2, r) ==
    LET h == SHi(s1) tol == RMul(4, RMax(STol(t, s1), STol(t, s2)))
        m == IF r.rat THEN r.p + 2 ELSE r.p + 1
    IN /\ r.p = Max2(s1.p, s2.p) /\ r.q = s1.q /\ VEq(r.kv, s1.kv)
       /\ RNear(SLo(r), SLo(s1), 0) /\ RNear(SHi(r), RAdd(h, RSub(SHi(s2), SLo(s2))), RMul(8, KTol(t, r.ku)))
       /\ \A a \in Samples(r.ku, m), b \in Samples(r.kv, 2) :
             LET u == SampleU(r.ku, m, a) v == SampleU(r.kv, 2, b)
             IN VNear(SPoint(r, u, v),
                      IF RLt(u, h) THEN SPoint(s1, u, v) ELSE SPoint(s2, Clamp(RAdd(RSub(u, h), SLo(s2)), SLo(s2), SHi(s2)), v), tol)
SubU(r, x) == STrimU(r, SLo(r), x)
SDTol(s, u, v, d) == RMul(R("1/10000000"), RMul(10, SScale(s, u, v, d, 0)))
\* extension of s in U at its end (or start); r over the whole; the original may be shifted
SExtOk(t, s, r, atEnd, mc) ==
    LET len == RSub(SHi(r), SLo(r)) old == RSub(SHi(s), SLo(s))
        sh == IF atEnd THEN R(0) ELSE RSub(SHi(s), SHi(r))        \* u of r -> u + sh of s
        lo == IF atEnd THEN SLo(r) ELSE RAdd(SLo(r), RSub(len, old))
        hi == RAdd(lo, old)
        n == IF mc < 0 THEN s.p - 1 ELSE Min2(s.p - 1, mc)
        ktol == RMul(8, RMax(KTol(t, s.ku), KTol(t, r.ku)))
        sj == IF atEnd THEN SHi(s) ELSE SLo(s)                     \* junction on s
        rj == r.ku[CHOOSE i \in 1..Len(r.ku) : RNear(r.ku[i], IF atEnd THEN hi ELSE lo, ktol)]
        \* just after / before the junction: the span of the extension
    IN /\ r.p = s.p /\ r.q = s.q /\ VEq(r.kv, s.kv)
       /\ RLt(old, len)
       /\ atEnd => RNear(SLo(r), SLo(s), ktol)
       /\ SameSurf(s, r, LAMBDA u : Clamp(RAdd(u, sh), SLo(s), SHi(s)), LAMBDA v : v, LAMBDA u : RLe(lo, u) /\ RLe(u, hi), RMul(10, STol(t, s)))
       /\ \A b \in Samples(r.kv, 2) : \A d \in 0..n :
             LET v == SampleU(r.kv, 2, b)
                 \* the extension seen from its own side
                 x == IF atEnd THEN SValue(r, rj, v, d, 0) ELSE SValue(SubU(r, rj), rj, v, d, 0)
             IN VNear(x, SValue(s, sj, v, d, 0), RMax(SDTol(s, sj, v, d), SDTol(r, rj, v, d)))
SurfsOk(t, e) ==
    LET ss == TLCEval([i \in 1..Len(e.s) |-> SurfOf(e.s[i])])
        rs == TLCEval([i \in 1..Len(e.r) |-> SurfOf(e.r[i])])
    IN /\ \A i \in 1..Len(rs) : FinS(e.r[i]) /\ ValidSurface(rs[i]) /\ Weights(rs[i]) /\ VNear(VOf(e.r[i].b), SBounds(rs[i]), RMax(KTol(t, rs[i].ku), KTol(t, rs[i].kv)))
       /\ CASE e.op = "sunify" -> Len(rs) = Len(ss) /\ SUnifyOk(t, ss, rs)
            [] e.op = "split" -> SplitOk(t, ss[1], e, rs)
            [] e.op = "srejoin" -> rs[1].p = ss[1].p /\ VEq(SBounds(rs[1]), SBounds(ss[1])) /\ SameSurf(ss[1], rs[1], LAMBDA u : u, LAMBDA v : v, All, RMul(10, STol(t, ss[1])))
            [] e.op = "sjoin" -> SJoinOk(t, ss[1], ss[2], rs[1])
            [] e.op = "sadddim" ->
                  LET s == ss[1] r == rs[1] m == IF r.rat THEN r.p + 2 ELSE r.p + 1
                  IN /\ r.p = s.p /\ r.q = s.q /\ VEq(r.ku, s.ku) /\ VEq(r.kv, s.kv)
                     /\ \A a \in Samples(r.ku, m), b \in Samples(r.kv, 2) :
                           LET u == SampleU(r.ku, m, a) v == SampleU(r.kv, 2, b)
                           IN VNear(SPoint(r, u, v), Append(SPoint(s, u, v), R(e.val)), STol(t, r))
            [] e.op = "sextend" ->
                  IF e.loc < 2 THEN SExtOk(t, ss[1], rs[1], e.loc = 1, e.mc)
                  ELSE SExtOk(t, Transpose(ss[1]), Transpose(rs[1]), e.loc = 3, e.mc)
            [] e.op = "sextcrv" ->
                  LET c == CurveOf(e.c[1]) r == rs[1]
                  IN /\ SExtOk(t, ss[1], r, TRUE, e.mc)
                     /\ \A s \in Samples(c.k, M(c)) : LET v == SampleU(c.k, M(c), s) IN VNear(SPoint(r, SHi(r), v), Point(c, v), RMul(100, STol(t, r)))
            [] OTHER -> FALSE

Init0(t) == <<>>
Allowed(t, o, e) ==
    CASE e.op = "sjoinbad" -> e.r = "runtime_error"
      [] Has(e, "s") -> SurfsOk(t, e)
      [] Has(e, "c") -> CurvesOk(t, e)
      [] OTHER -> FALSE
Effect(t, o, e) == o
Init == TraceInit(Init0)
Next == TraceStep(Allowed, Effect)
=============================================================================
