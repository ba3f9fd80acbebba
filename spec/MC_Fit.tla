------------------------------ MODULE MC_Fit ------------------------------
(***************************************************************************)
(* Interpolation and least squares on every small set of parameters: the   *)
(* interpolant over averaged knots exists and is unique (Schoenberg -      *)
(* Whitney), meets its data, reproduces polynomials; the least squares     *)
(* solution makes the gradient vanish and beats every neighbour.           *)
(* Behaviour: data points are added one after the other, then fitted.      *)
(***************************************************************************)
EXTENDS Fit
CONSTANTS MaxN, MaxGap, MaxP
VARIABLES gaps, p, st
vars == <<gaps, p, st>>
RECURSIVE Acc(_, _, _)
Acc(g, i, acc) == IF i > Len(g) THEN acc ELSE Acc(g, i + 1, Append(acc, acc[Len(acc)] + g[i]))
Us == LET a == Acc(gaps, 1, <<0>>) IN [i \in 1..Len(a) |-> R(a[i])]
n == Len(gaps) + 1
Init == gaps = <<>> /\ p \in 1..MaxP /\ st = "data"
Add == st = "data" /\ n < MaxN /\ \E g \in 1..MaxGap : gaps' = Append(gaps, g) /\ UNCHANGED <<p, st>>
DoFit == st = "data" /\ n >= p + 1 /\ st' = "fitted" /\ UNCHANGED <<gaps, p>> /\ PrintT(<<"SCN", p>> \o gaps)
Next == Add \/ DoFit
\* data with no structure, and the powers
V(i) == <<((i * i * 7) % 11) - 5, (i * 5) % 7>>
Data == [i \in 1..n |-> [u |-> Us[i], d |-> 0, v |-> V(i)]]
K == AveragedKnots(Us, p)
Fitted == st = "fitted"
Exact == Fitted =>
    LET c == Interpolant(Data, K, p)
    IN c.P # <<>> /\ ValidCurve(c) /\ Satisfies(c, Data, LAMBDA a, b : R(0))
Whitney == Fitted => SW(Us, K, p)
Polynomials == Fitted =>
    LET c == Interpolant([i \in 1..n |-> [u |-> Us[i], d |-> 0, v |-> <<RPow(Us[i], p)>>]], K, p)
    IN \A h \in 0..(2 * n) : LET u == RDiv(RMul(h, Us[n]), 2 * n) IN VEq(Value(c, u, 0), <<RPow(u, p)>>)
Tangents == (Fitted /\ n >= 3) =>
    LET D == BesselAll([i \in 1..n |-> <<RMul(Us[i], Us[i])>>], Us) IN \A i \in 1..n : VEq(D[i], <<RMul(2, Us[i])>>)
\* fewer poles than points: knots over every second parameter
Few == SubSeq(Us, 1, 1) \o [i \in 1..(n \div 2 - 1) |-> Us[2 * i]] \o SubSeq(Us, n, n)
LsKnots == IF Len(Few) >= p + 1 THEN AveragedKnots(Few, p) ELSE MultKnots(<<Us[1], Us[n]>>, p, 1)
LeastSq == Fitted =>
    LET c == LeastSquares(Us, [i \in 1..n |-> V(i)], LsKnots, p)
        N == [j \in 1..n |-> BasisRow(LsKnots, p, Us[j], 0)]
        Q == [i \in 1..n |-> V(i)]
        E == Errors(c, Us, Q)
        moved(i, h) == [c EXCEPT !.P = [m \in 1..Len(c.P) |-> IF m = i THEN VAdd(c.P[m], <<h, RNeg(h)>>) ELSE c.P[m]]]
    IN c.P # <<>> =>
        /\ Optimal(E, N, 1..Len(c.P), R(0))
        /\ \A i \in 1..Len(c.P) : \A h \in {-1, 1} : RLe(SSE(E), SSE(Errors(moved(i, RDiv(h, 3)), Us, Q)))
=============================================================================
