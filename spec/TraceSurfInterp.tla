-------------------------- MODULE TraceSurfInterp --------------------------
(***************************************************************************)
(* Conformance of the interpolating surfaces.                              *)
(***************************************************************************)
EXTENDS TraceBase, Fit
Eps(t) == IF t.fl THEN R("1/200") ELSE R("1/1000000000")
KTol(t, k) == RMul(IF t.fl THEN R("1/20000") ELSE R("1/100000000000"), RMax(1, RMaxAbs(k)))
Tol(t, s, x) ==
    LET su == Span(s.ku, s.p, x.u) sv == Span(s.kv, s.q, x.v)
        a == UnitScale(s.ku, su, s.p, x.du) b == UnitScale(s.kv, sv, s.q, x.dv)
        a1 == IF x.du < s.p THEN UnitScale(s.ku, su, s.p, x.du + 1) ELSE R(0)
        b1 == IF x.dv < s.q THEN UnitScale(s.kv, sv, s.q, x.dv + 1) ELSE R(0)
        m == RMax(1, RMax(RMaxAbs(s.ku), RMaxAbs(s.kv)))
    IN RMul(RMul(Eps(t), RMax(PolesScale(s.P), RMaxAbs(x.x))),
            RAdd(RMul(a, b), RMul(RMul(R("1/10000"), m), RAdd(RMul(a1, b), RMul(a, b1)))))
Fin(x) == VFin(x.ku) /\ VFin(x.kv) /\ VFin(x.b) /\ \A i \in 1..Len(x.P) : VFin(x.P[i])
Fits(t, e, D, ku, kv) ==
    LET s == SurfOf(e.s)
    IN /\ Fin(e.s) /\ ValidSurface(s) /\ s.p = e.p /\ s.q = e.q
       /\ VNear(e.s.ku, ku, KTol(t, ku)) /\ VNear(e.s.kv, kv, KTol(t, kv))
       /\ VEq(e.s.b, <<s.ku[1], s.ku[Len(s.ku)], s.kv[1], s.kv[Len(s.kv)]>>)
       /\ SSatisfies(s, D, LAMBDA a, x : Tol(t, a, x))
GridData(us, vs, Q) ==
    LET nu == Len(us)
    IN [i \in 1..(nu * Len(vs)) |-> [u |-> us[((i - 1) % nu) + 1], v |-> vs[((i - 1) \div nu) + 1], du |-> 0, dv |-> 0, x |-> Q[i]]]
\* the average of the parametrizations of the rows (columns)
Avg(ps) == LET m == Len(ps) IN TLCEval([i \in 1..Len(ps[1]) |-> RDiv(RSum([j \in 1..m |-> ps[j][i]]), m)])
Hermitian1(us, ds) == \A i \in 1..Len(us) : ds[i] = 0 \/ (i > 1 /\ REq(us[i - 1], us[i]) /\ ds[i - 1] = ds[i] - 1)
Allowed(t, o, e) ==
    CASE e.op = "sgrid" ->
            LET Q == MOf(e.Q)
                us == Avg([j \in 1..e.nv |-> Parametrization([i \in 1..e.nu |-> Q[i + e.nu * (j - 1)]], e.mode, TRUE)])
                vs == Avg([i \in 1..e.nu |-> Parametrization([j \in 1..e.nv |-> Q[i + e.nu * (j - 1)]], e.mode, TRUE)])
            IN Fits(t, e, GridData(us, vs, Q), AveragedKnots(us, e.p), AveragedKnots(vs, e.q))
      [] e.op = "sgridu" ->
            LET us == VOf(e.u) vs == VOf(e.v)
            IN Fits(t, e, GridData(us, vs, MOf(e.Q)), AveragedKnots(us, e.p), AveragedKnots(vs, e.q))
      [] e.op = "scstr" ->
            LET ku == VOf(e.ku) kv == VOf(e.kv) us == VOf(e.u) vs == VOf(e.v)
                D == TLCEval([i \in 1..Len(e.C) |-> [u |-> R(e.C[i].u), v |-> R(e.C[i].v), du |-> e.C[i].du, dv |-> e.C[i].dv, x |-> VOf(e.C[i].x)]])
            IN (Hermitian1(us, e.du) /\ Hermitian1(vs, e.dv) /\ SW(us, ku, e.p) /\ SW(vs, kv, e.q)) => Fits(t, e, D, ku, kv)
      [] e.op = "refuse" -> e.r = e.want
      [] OTHER -> FALSE
Init == TraceInit(LAMBDA t : <<>>)
Next == TraceStep(Allowed, LAMBDA t, o, e : o)
=============================================================================
