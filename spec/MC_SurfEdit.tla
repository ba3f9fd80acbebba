---------------------------- MODULE MC_SurfEdit ----------------------------
(***************************************************************************)
(* Every sequence of up to Depth edits of small surfaces: the surface      *)
(* stays proper and stays the same shape under the accumulated parameter   *)
(* maps and transpositions; iso curves lie on the surface.                 *)
(***************************************************************************)
EXTENDS SurfEdit
CONSTANTS MaxP, Depth
VARIABLES s, s0, m, tr, hist
\* m = <<au, bu, av, bv>>: (u,v) of s  ->  (au*u+bu, av*v+bv), then swapped when tr: parameter of s0
Rep(x, n) == [i \in 1..n |-> x]
Start(p, q, mu) ==
    LET KU == Rep(R(0), p + 1) \o Rep(R(2), mu) \o Rep(R(4), p + 1)
        KV == Rep(R(0), q + 1) \o Rep(R(1), 1) \o Rep(R(2), q + 1)
        n == (Len(KU) - p - 1) * (Len(KV) - q - 1)
    IN [p |-> p, q |-> q, ku |-> KU, kv |-> KV, rat |-> TRUE,
        P |-> [i \in 1..n |-> <<R(((i * i * 7) % 11) - 5), R(1 + (i % 3))>>]]
Init == \E p \in 1..MaxP, q \in 1..MaxP, mu \in 0..1 :
          /\ s0 = Start(p, q, mu) /\ s = s0 /\ m = <<R(1), R(0), R(1), R(0)>> /\ tr = FALSE /\ hist = <<p, q, mu>>
At(x, i) == RAdd(SLo(x), RMul(RDiv(i, 8), RSub(SHi(x), SLo(x))))
Log(h) == hist' = hist \o h
\* F acts in U (v = 0) or, on the transposed surface, in V (v = 1)
Op(v, F(_), L) ==
    /\ s' = IF v = 0 THEN F(s) ELSE InV(s, F)
    /\ UNCHANGED <<s0, m, tr>> /\ Log(L)
SetM(v, a, b) == IF v = 0 THEN <<a, b, m[3], m[4]>> ELSE <<m[1], m[2], a, b>>
Dir(v) == IF v = 0 THEN s ELSE Transpose(s)
DoInsert  == \E v \in 0..1, i \in {2, 4}, n \in 1..2 : Op(v, LAMBDA x : SInsertU(x, At(x, i), n), <<"I", v, i, n>>)
DoElevate == \E v \in 0..1 : Dir(v).p <= MaxP /\ Op(v, SElevateU, <<"E", v, 0, 0>>)
DoTrim    == \E v \in 0..1, ab \in {<<0, 4>>, <<2, 5>>} : Op(v, LAMBDA x : STrimU(x, At(x, ab[1]), At(x, ab[2])), <<"T", v, ab[1], ab[2]>>)
DoReverse == \E v \in 0..1 :
    /\ s' = IF v = 0 THEN SReverseU(s) ELSE InV(s, SReverseU)
    /\ LET x == Dir(v) o == 2 * v IN
         m' = SetM(v, RNeg(m[1 + o]), RAdd(m[2 + o], RMul(m[1 + o], RAdd(SLo(x), SHi(x)))))
    /\ UNCHANGED <<s0, tr>> /\ Log(<<"V", v, 0, 0>>)
DoRebound == \E v \in 0..1, ab \in {<<-1, 3>>} :
    LET x == Dir(v) o == 2 * v
        r == RDiv(RSub(SHi(x), SLo(x)), ab[2] - ab[1])
    IN /\ s' = IF v = 0 THEN SReboundU(s, ab[1], ab[2]) ELSE InV(s, LAMBDA y : SReboundU(y, ab[1], ab[2]))
       /\ m' = SetM(v, RMul(m[1 + o], r), RAdd(m[2 + o], RMul(m[1 + o], RSub(SLo(x), RMul(r, ab[1])))))
       /\ UNCHANGED <<s0, tr>> /\ Log(<<"B", v, ab[1], ab[2]>>)
DoInvert == /\ s' = Transpose(s) /\ m' = <<m[3], m[4], m[1], m[2]>> /\ tr' = ~tr /\ s0' = s0 /\ Log(<<"X", 0, 0, 0>>)
Next == /\ Len(hist) < 3 + 4 * Depth
        /\ (DoInsert \/ DoElevate \/ DoTrim \/ DoReverse \/ DoRebound \/ DoInvert)
        /\ (Len(hist') = 3 + 4 * Depth => PrintT(<<"SCN">> \o hist'))

IsProper == ProperSurface(s)
Shape ==
    \A a \in Samples(s.ku, s.p + 1), b \in Samples(s.kv, s.q + 1) :
        LET u == SampleU(s.ku, s.p + 1, a)
            v == SampleU(s.kv, s.q + 1, b)
            x == RAdd(RMul(m[1], u), m[2])
            y == RAdd(RMul(m[3], v), m[4])
        IN VEq(SHValue(s, u, v, 0, 0), IF tr THEN SHValue(s0, y, x, 0, 0) ELSE SHValue(s0, x, y, 0, 0))
Isos == \A i \in {0, 3, 8} :
    LET u == At(s, i) v == At(Transpose(s), i) cu == IsoU(s, u) cv == IsoV(s, v)
    IN /\ \A j \in {1, 4} : VEq(HValue(cv, At(s, j), 0), SHValue(s, At(s, j), v, 0, 0))
       /\ \A j \in {1, 4} : VEq(HValue(cu, At(Transpose(s), j), 0), SHValue(s, u, At(Transpose(s), j), 0, 0))
=============================================================================
