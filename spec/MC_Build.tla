------------------------------ MODULE MC_Build ------------------------------
(***************************************************************************)
(* Sections are added one after the other, then lofted at every degree and *)
(* way of choosing parameters: the loft passes through every section, at   *)
(* every point of it; two families of crossing curves are both on the      *)
(* Gordon surface; derivative and integral curves are inverse of each      *)
(* other.  The choices are the scenarios replayed on the real builders.    *)
(***************************************************************************)
EXTENDS Build
CONSTANTS MaxN, MaxQ
VARIABLES kinds, rat, done, q, mode, Us
W(P) == IF rat THEN [i \in 1..Len(P) |-> LET w == R(1 + (i % 2)) IN Append(VScale(w, P[i]), w)] ELSE P
Sec(k, j) == \* a section of kind k, at height j
    LET P(s) == [i \in 1..Len(s) |-> VOf(<<s[i][1], s[i][2], 2 * j>>)] IN
    CASE k = 1 -> [p |-> 1, k |-> VOf(<<0, 0, 2, 2>>), P |-> W(P(<<<<0, j>>, <<4, 1>>>>)), rat |-> rat]
      [] k = 2 -> [p |-> 2, k |-> VOf(<<0, 0, 0, 1, 1, 1>>), P |-> W(P(<<<<0, 1>>, <<2, 3>>, <<5, j>>>>)), rat |-> rat]
      [] k = 3 -> [p |-> 2, k |-> VOf(<<-1, -1, -1, 0, 1, 1, 1>>), P |-> W(P(<<<<1, 1>>, <<2, -1>>, <<3, j>>, <<5, 0>>>>)), rat |-> rat]
Cs == [j \in 1..Len(kinds) |-> Sec(kinds[j], j)]
n == Len(kinds)
Init == kinds = <<>> /\ rat \in BOOLEAN /\ done = FALSE /\ q = 0 /\ mode = "" /\ Us = <<>>
Add == ~done /\ n < MaxN /\ \E k \in 1..3 : kinds' = Append(kinds, k) /\ UNCHANGED <<rat, done, q, mode, Us>>
Modes == {"v", "flat", "auto", "list", "ptr", "spine", "approx"}
Canon(cs) == [j \in 1..Len(cs) |-> [cs[j] EXCEPT !.k = [i \in 1..Len(cs[j].k) |-> RCanon(cs[j].k[i])], !.P = [i \in 1..Len(cs[j].P) |-> [d \in 1..Len(cs[j].P[i]) |-> RCanon(cs[j].P[i][d])]]]]
LoftIt == ~done /\ n >= 2 /\ \E g \in 1..MaxQ, m \in Modes :
    /\ (m = "spine" => g >= 2 /\ n >= 3) /\ (m = "ptr" => ~rat)
    /\ done' = TRUE /\ Us' = (IF m \in {"v", "auto"} THEN Canon(Unify(Cs)) ELSE <<>>) /\ q' = g /\ mode' = m /\ UNCHANGED <<kinds, rat>>
    /\ PrintT(<<"SCN", "loft", m, g, IF rat THEN 1 ELSE 0>> \o kinds)
Next == Add \/ LoftIt
V == IF mode = "auto" THEN LoftParams(Us) ELSE [j \in 1..n |-> RDiv(j * j - 1, n * n - 1)]
Q == IF q < n THEN q ELSE n - 1
Exactly(u, v) == R(0)
Sampled == {RDiv(RMul(i, HiU(Us[1])), 5) : i \in 0..5} \cap {x \in {RDiv(RMul(i, HiU(Us[1])), 5) : i \in 0..5} : RLe(LoU(Us[1]), x)}
Lofted == done /\ mode \in {"v", "auto"} =>
    LET kv == AveragedKnots(V, Q)
    IN /\ SW(V, kv, Q)
       /\ \A j \in 1..(n - 1) : RLt(V[j], V[j + 1])
       /\ REq(V[1], 0) /\ RNear(V[n], R(1), R("1/1000000000000"))
       /\ mode = "v" => LET s == LoftOf(Us, V, kv, Q) IN ValidSurface(s) /\ Passes(s, Cs, V, Sampled, Exactly)
\* a position and a derivative at every section: the system stays regular for any spacing
Hermite == done /\ mode = "spine" => LET k == AveragedKnots(Doubled(V), Q) IN SW(Doubled(V), k, Q)
\* a network: curves of kinds[1..n] lofted, crossed by iso curves of the loft
Gordon == done /\ mode = "v" /\ ~rat /\ Len(kinds) + q <= 4 =>
    LET kv == AveragedKnots(V, Q) L == LoftOf(Us, V, kv, Q)
        lo == L.ku[1] hi == L.ku[Len(L.ku)]
        U == <<lo, RAdd(lo, RMul(R("1/3"), RSub(hi, lo))), hi>>
        cv == [i \in 1..3 |-> IsoU(L, U[i])]
        P == IF L.p < 2 THEN 1 ELSE 2
        kU == AveragedKnots(U, P)
        Lv == Transpose(LoftOf(cv, U, kU, P))
        T == Transpose(LoftOf([i \in 1..3 |-> Interpolant([j \in 1..n |-> [u |-> V[j], d |-> 0, v |-> Point(cv[i], V[j])]], kv, Q)], U, kU, P))
        G(u, v) == VSub(VAdd(SPoint(L, u, v), SPoint(Lv, u, v)), SPoint(T, u, v))
    IN /\ \A j \in 1..n : \A u \in Sampled : VEq(G(u, V[j]), Point(Us[j], u))
       /\ \A i \in 1..3 : \A v \in {R(0), R("2/7"), R(1)} : VEq(G(U[i], v), Point(cv[i], v))
Inverse == (~done /\ n = 1 /\ ~rat) =>
    LET c == Cs[1] x == VOf(<<1, 2, 3>>) i == IntegralOf(c, x) d == DerivativeOf(c)
    IN /\ ValidCurve(i) /\ ValidCurve(d)
       /\ LET e == DerivativeOf(i) IN VEq(e.k, c.k) /\ \A m \in 1..Len(c.P) : VEq(e.P[m], c.P[m])
       /\ LET e == IntegralOf(d, c.P[1]) IN VEq(e.k, c.k) /\ \A m \in 1..Len(c.P) : VEq(e.P[m], c.P[m])
       /\ \A u \in Samples2(c) : (Mult(c.k, u) = 0 \/ c.p > 1 => VEq(Point(d, u), Value(c, u, 1))) /\ VEq(Value(i, u, 1), Point(c, u))
       /\ VEq(Point(i, LoU(c)), x)
=============================================================================
