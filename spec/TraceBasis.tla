----------------------------- MODULE TraceBasis -----------------------------
(***************************************************************************)
(* Conformance of the basis functions, knot spans and knot vector helpers. *)
(* obj is the knot vector and degree.                                      *)
(***************************************************************************)
EXTENDS TraceBase, BSpline

Eps(t) == IF t.fl THEN R("1/50000") ELSE R("1/100000000000")
Init0(t) == IF Has(t, "k") THEN [p |-> t.p, k |-> VOf(t.k)] ELSE [p |-> 0, k |-> <<>>]

\* the p+1 basis functions of span s (1-based) at order d: those of the local curve
\* whose poles are the unit vectors
LocalBasis(o, s, u, d) ==
    IF d > o.p THEN VZero(o.p + 1)
    ELSE VApx(LocalEval(SubSeq(o.k, s - o.p + 1, s + o.p), o.p,
              [j \in 1..(o.p + 1) |-> [m \in 1..(o.p + 1) |-> IF m = j THEN 1 ELSE 0]], u, d))
AllBasis(o, u, d) ==
    LET s == Span(o.k, o.p, u)
        n == Len(o.k) - o.p - 1
        B == LocalBasis(o, s, u, d)
    IN [i \in 1..n |-> IF i >= s - o.p /\ i <= s THEN B[i - s + o.p + 1] ELSE R(0)]

Tol(t, o, u, d) == RMul(Eps(t), UnitScale(o.k, Span(o.k, o.p, u), o.p, d))

\* distinct knots and multiplicities
RECURSIVE Distinct(_, _, _)
Distinct(k, i, acc) ==
    IF i > Len(k) THEN acc
    ELSE IF acc # <<>> /\ REq(acc[Len(acc)][1], k[i])
         THEN Distinct(k, i + 1, [acc EXCEPT ![Len(acc)] = <<k[i], acc[Len(acc)][2] + 1>>])
         ELSE Distinct(k, i + 1, Append(acc, <<k[i], 1>>))
Eps0(t) == IF t.fl THEN R("1.1920928955078125e-07") ELSE R("2.220446049250313e-16")
KnotEps(t) == RMul(100, Eps0(t))

Clamped(r, p, a, b) ==
    /\ \A i \in 1..(p + 1) : REq(r[i], a) /\ REq(r[Len(r) + 1 - i], b)
    /\ Nondecreasing(r)

RECURSIVE Cumul(_, _, _)
Cumul(f, n, acc) == IF Len(acc) > n THEN acc ELSE Cumul(f, n, Append(acc, RAdd(acc[Len(acc)], f[Len(acc)])))
Chords(pts) == [i \in 1..(Len(pts) - 1) |-> LET d == VSub(pts[i + 1], pts[i]) IN RSqrt(RDot(d, d))]
ParamOf(e, pts) ==
    LET n == Len(pts)
        ch == Chords(pts)
        raw == IF e.mode = "equal" THEN [i \in 1..n |-> RDiv(i - 1, n - 1)]
               ELSE IF e.mode = "chord" THEN Cumul(ch, n - 1, <<R(0)>>)
               ELSE Cumul([i \in 1..(n - 1) |-> RSqrt(ch[i])], n - 1, <<R(0)>>)
    IN IF e.ad THEN VScale(RDiv(1, raw[n]), raw) ELSE raw

Allowed(t, o, e) ==
    CASE e.op = "span"  -> e.r + 1 = Span(o.k, o.p, R(e.u))
      [] e.op = "range" -> /\ e.r2 + 1 = Span(o.k, o.p, R(e.u))
                           /\ e.r1 = e.r2 - o.p
      [] e.op = "all"   -> VNear(e.r, AllBasis(o, R(e.u), e.d), Tol(t, o, R(e.u), e.d))
      [] e.op = "loc"   -> /\ e.s + 1 = Span(o.k, o.p, R(e.u))
                           /\ VNear(e.r, LocalBasis(o, e.s + 1, R(e.u), e.d), Tol(t, o, R(e.u), e.d))
      [] e.op = "unflat" -> LET D == Distinct(o.k, 1, <<>>)
                            IN /\ Len(e.r) = Len(D) /\ Len(e.m) = Len(D)
                               /\ \A i \in 1..Len(D) : REq(e.r[i], D[i][1]) /\ e.m[i] = D[i][2]
      [] e.op = "flat"  -> VEq(e.r, o.k)
      [] e.op = "mult"  -> e.r = Cardinality({i \in 1..Len(o.k) :
                              RLe(RAbs(RSub(o.k[i], e.u)), IF e.exact THEN R(0) ELSE RMul(KnotEps(t), R("999/1000")))})
      [] e.op = "multflat" ->
            LET n == Len(e.kn)
                want == [i \in 1..(2 * (o.p + 1) + (n - 2) * e.m) |->
                            IF i <= o.p + 1 THEN e.kn[1]
                            ELSE IF i > o.p + 1 + (n - 2) * e.m THEN e.kn[n]
                            ELSE e.kn[2 + (i - o.p - 2) \div e.m]]
            IN VEq(e.r, want)
      [] e.op = "multflatn" ->
            LET n == Len(e.kn)
                want == [i \in 1..(2 * (o.p + 1) + (n - 2) * e.m) |->
                            IF i <= o.p + 1 THEN e.kn[1]
                            ELSE IF i > o.p + 1 + (n - 2) * e.m THEN e.kn[n]
                            ELSE e.kn[2 + (i - o.p - 2) \div e.m]]
            IN VNear(e.r, want, RMul(KnotEps(t), 50)) /\ Nondecreasing(VOf(e.r))
      [] e.op = "simple" -> Len(e.r) = e.n + o.p + 1 /\ VFin(e.r) /\ Clamped(VOf(e.r), o.p, R(e.a), R(e.b))
                            /\ \A i \in (o.p + 1)..e.n : RLt(e.r[i], e.r[i + 1])
      \* averaged knots (de Boor): interior knot j is the mean of p consecutive parameters
      [] e.op = "averaged" ->
            LET n == Len(e.us) us == VOf(e.us)
            IN /\ Len(e.r) = n + o.p + 1 /\ VFin(e.r)
               /\ Clamped(VOf(e.r), o.p, us[1], us[n])
               /\ \A j \in 1..(n - o.p - 1) :
                    RNear(e.r[j + o.p + 1], RDiv(RSum(SubSeq(us, j + 1, j + o.p)), o.p), RMul(Eps(t), RMaxAbs(us)))
      [] e.op = "rebound" ->
            LET a == R(e.a) b == R(e.b) k == o.k n == Len(k)
            IN VNear(e.r, [i \in 1..n |-> RAdd(a, RDiv(RMul(RSub(b, a), RSub(k[i], k[1])), RSub(k[n], k[1])))],
                     RMul(Eps(t), RMax(RAbs(a), RMax(RAbs(b), 1))))
      [] e.op = "param" -> LET w == ParamOf(e, MOf(e.pts)) IN VNear(e.r, w, RMul(Eps(t), RMax(1, RMaxAbs(w))))
      [] OTHER -> FALSE

Init == TraceInit(Init0)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
