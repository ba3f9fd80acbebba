----------------------------- MODULE MC_Surface -----------------------------
(***************************************************************************)
(* The definitions of surfaces in BSpline.tla, checked on every pair of    *)
(* clamped knot vectors of degree 1..MaxP over the breakpoints 0, 2, 4     *)
(* (interior multiplicity 0..p): the value by corner cutting in U then V   *)
(* is the tensor product sum over basis functions, iso curves and corners  *)
(* are where they must be, transposition commutes with evaluation, and the *)
(* rational mixed derivatives satisfy Leibniz' rule.                       *)
(***************************************************************************)
EXTENDS BSpline
CONSTANTS MaxP
VARIABLES p, q, mu, mv
Rep(x, n) == [i \in 1..n |-> x]
KU == Rep(0, p + 1) \o Rep(2, mu) \o Rep(4, p + 1)
KV == Rep(0, q + 1) \o Rep(2, mv) \o Rep(4, q + 1)
Nu == Len(KU) - p - 1
Nv == Len(KV) - q - 1
Pole(n) == <<((n * n * 7) % 11) - 5, (n * 5) % 7>>
S  == [p |-> p, q |-> q, ku |-> KU, kv |-> KV, P |-> [n \in 1..(Nu * Nv) |-> Pole(n)], rat |-> FALSE]
SR == [S EXCEPT !.P = [n \in 1..(Nu * Nv) |-> <<Pole(n)[1], 1 + (n % 3)>>], !.rat = TRUE]
ST == [p |-> q, q |-> p, ku |-> KV, kv |-> KU, rat |-> FALSE,
       P |-> [n \in 1..(Nu * Nv) |-> LET j == 1 + ((n - 1) % Nv) i == 1 + ((n - 1) \div Nv) IN Pole(i + Nu * (j - 1))]]
Us == {<<h, 2>> : h \in {0, 1, 4, 5, 8}}

\* sum over i, j of N_i^(a)(u) N_j^(b)(v) P_ij
Tensor(u, v, a, b) ==
    LET NB == TLCEval([i \in 1..Nu |-> BasisD(KU, i, p, u, a)])
        MB == TLCEval([j \in 1..Nv |-> BasisD(KV, j, q, v, b)])
    IN [x \in 1..2 |-> RSum([n \in 1..(Nu * Nv) |->
            RMul(RMul(NB[1 + ((n - 1) % Nu)], MB[1 + ((n - 1) \div Nu)]), S.P[n][x])])]
IsTensor == \A u \in Us, v \in Us : \A a \in 0..2, b \in 0..2 : VEq(SValue(S, u, v, a, b), Tensor(u, v, a, b))
Transposed == \A u \in Us, v \in Us : \A a \in 0..2, b \in 0..2 : VEq(SValue(S, u, v, a, b), SValue(ST, v, u, b, a))
Corners == /\ VEq(SPoint(S, 0, 0), S.P[1]) /\ VEq(SPoint(S, 4, 0), S.P[Nu])
           /\ VEq(SPoint(S, 0, 4), S.P[Nu * (Nv - 1) + 1]) /\ VEq(SPoint(S, 4, 4), S.P[Nu * Nv])
\* (S w)^(a,b) = A^(a,b)
Leibniz == \A u \in Us, v \in {<<1, 2>>, <<4, 2>>} : \A a \in 0..2, b \in 0..2 :
    REq(RSum([n \in 1..((a + 1) * (b + 1)) |->
                LET i == (n - 1) % (a + 1) j == (n - 1) \div (a + 1)
                IN RMul(RMul(RMul(Binom(a, i), Binom(b, j)), SHValue(SR, u, v, i, j)[2]), SValue(SR, u, v, a - i, b - j)[1])]),
        SHValue(SR, u, v, a, b)[1])
Init == p \in 1..MaxP /\ q \in 1..MaxP /\ mu \in 0..MaxP /\ mv \in 0..MaxP /\ mu <= p /\ mv <= q
        /\ PrintT(<<"SCN", p, q, mu, mv>>)
Next == UNCHANGED <<p, q, mu, mv>>
=============================================================================
