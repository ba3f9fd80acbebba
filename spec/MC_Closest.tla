----------------------------- MODULE MC_Closest -----------------------------
(***************************************************************************)
(* The search of the point of a curve closest to a given one: samples, then*)
(* steps downhill, halved when neither neighbour is closer.  Whatever the  *)
(* choice of the steps, the distance never grows, the parameter stays in   *)
(* the curve, the search ends, and it ends in a valley no farther than any *)
(* sample.  The inputs are the scenarios replayed on the real search.      *)
(***************************************************************************)
EXTENDS Closest
CONSTANTS Size, Halvings, Ns
VARIABLES kind, P, n, u, h, left, pc
vars == <<kind, P, n, u, h, left, pc>>
Curve2 ==
    LET V(s) == [i \in 1..Len(s) |-> VOf(s[i])] IN
    <<[p |-> 1, k |-> VOf(<<0, 0, 1, 1>>), P |-> V(<<<<0, 0>>, <<4, 0>>>>), rat |-> FALSE],
      [p |-> 2, k |-> VOf(<<0, 0, 0, 1, 1, 1>>), P |-> V(<<<<0, 0>>, <<2, 4>>, <<4, 0>>>>), rat |-> FALSE],
      [p |-> 1, k |-> <<R(0), R(0), R("1/2"), R(1), R(1)>>, P |-> V(<<<<0, 0>>, <<4, 0>>, <<4, 4>>>>), rat |-> FALSE],
      [p |-> 3, k |-> VOf(<<0, 0, 0, 0, 1, 1, 1, 1>>), P |-> V(<<<<0, 0>>, <<4, 4>>, <<0, 4>>, <<4, 0>>>>), rat |-> FALSE]>>
c == Curve2[kind]
T == VOf(P)
D(x) == D2(CP(c, T, <<x>>))
Samples == {Station(R(0), R(1), n, j) : j \in 0..(n - 1)}
Init == /\ kind \in 1..4 /\ P \in ((-1)..Size) \X ((-1)..Size) /\ n \in Ns
        /\ pc = "sample" /\ u = R(0) /\ h = R(0) /\ left = Halvings
        /\ PrintT(<<"SCN", "cp", kind, P[1], P[2], n>>)
Sample == /\ pc = "sample"
          /\ \E s \in Samples : (\A t \in Samples : RLe(D(s), D(t))) /\ u' = RCanon(s)
          /\ h' = RDiv(1, 2 * (n - 1)) /\ pc' = "descend" /\ UNCHANGED <<kind, P, n, left>>
Closer == {x \in {RSub(u, h), RAdd(u, h)} : RLe(0, x) /\ RLe(x, 1) /\ RLt(D(x), D(u))}
Descend == /\ pc = "descend" /\ Closer # {} /\ (\E x \in Closer : u' = RCanon(x)) /\ UNCHANGED <<kind, P, n, h, left, pc>>
Halve == /\ pc = "descend" /\ Closer = {}
         /\ IF left = 0 THEN pc' = "done" /\ UNCHANGED <<h, left>> ELSE h' = RCanon(RDiv(h, 2)) /\ left' = left - 1 /\ pc' = pc
         /\ UNCHANGED <<kind, P, n, u>>
Next == Sample \/ Descend \/ Halve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBox == Inside(<<u>>, <<CurveBox(c)>>)
Downhill == [][pc = "descend" => RLe(D(u'), D(u))]_vars
Ends == <>(pc = "done")
Final == pc = "done" =>
    /\ \A s \in Samples : RLe(D(u), D(s))
    \* a valley: a slope a step away from u leads back to it
    /\ \A x \in {RSub(u, h), RAdd(u, h)} : Inside(<<x>>, <<<<R(0), R(1)>>>>) => RLe(D(u), D(x))
    \* of a straight line: within the last step of the foot of the perpendicular
    /\ kind = 1 => LET f == RDiv(T[1], 4) g == IF RLt(f, 0) THEN R(0) ELSE IF RLt(1, f) THEN R(1) ELSE f IN RLe(RAbs(RSub(u, g)), h)
\* the derivative of the squared distance is twice the slope (exact difference quotient of a cubic at most, along a line)
Slopes == pc = "sample" =>
    LET e == R("1/1000000") IN \A s \in Samples \ {R(0), R(1), R("1/2")} :
        RNear(RMul(2, Slope(CP(c, T, <<s>>), CPd(c, <<s>>, 1))), RDiv(RSub(D(RAdd(s, e)), D(RSub(s, e))), RMul(2, e)), R("1/1000000"))
Crossing == pc = "sample" /\ kind = 1 => \* two lines through T and a corner cross there
    LET l == [o |-> T, d |-> Unit(VOf(<<3, 1>>))] m == [o |-> VOf(<<7, 5>>), d |-> Unit(VOf(<<-1, 2>>))] r == LinesCross(l, m)
    IN VNear(VAdd(l.o, VScale(r[1], l.d)), VAdd(m.o, VScale(r[2], m.d)), R("1/1000000000000"))
=============================================================================
