---------------------------- MODULE MC_CurveEdit ----------------------------
(***************************************************************************)
(* Every sequence of up to Depth edits of every clamped curve of degree    *)
(* 1..MaxP over the breakpoints 0,2,4 (interior multiplicity 0..p).        *)
(* Checked in every state: the curve is proper, and it is still the shape  *)
(* of the initial curve under the accumulated parameter map; inserting and *)
(* then removing gives the curve back.  Prints the sequences as scenarios. *)
(***************************************************************************)
EXTENDS CurveEdit
CONSTANTS MaxP, Depth

VARIABLES c, c0, al, be, hist   \* c(u) = c0(al*u + be)

Rep(x, n) == [i \in 1..n |-> x]
Start(p, m) ==
    LET K == Rep(R(0), p + 1) \o Rep(R(2), m) \o Rep(R(4), p + 1)
        n == Len(K) - p - 1
    IN [p |-> p, k |-> K, P |-> [i \in 1..n |-> <<R(((i * i * 7) % 11) - 5), R(1 + (i % 3))>>], rat |-> TRUE]

Init == \E p \in 1..MaxP, m \in 0..MaxP :
          /\ m <= p
          /\ c0 = Start(p, m) /\ c = c0 /\ al = R(1) /\ be = R(0)
          /\ hist = <<p, m>>

\* parameters at fractions i/8 of the current domain
At(i) == RAdd(LoU(c), RMul(RDiv(i, 8), RSub(HiU(c), LoU(c))))
Log(x) == hist' = hist \o x
DoInsert == \E i \in {2, 4, 5}, m \in 1..2 : c' = Insert(c, At(i), m) /\ UNCHANGED <<c0, al, be>> /\ Log(<<"I", i, m>>)
DoRemove == \E i \in {2, 4, 5}, m \in 1..2 :
                /\ Mult(c.k, At(i)) > 0
                /\ LET js == {j \in 0..Min2(m, Mult(c.k, At(i))) : j = 0 \/ Removable(c, At(i), j)}
                       j == CHOOSE j \in js : \A x \in js : x <= j
                   IN c' = IF j = 0 THEN c ELSE Removed(c, At(i), j)
                /\ UNCHANGED <<c0, al, be>> /\ Log(<<"R", i, m>>)
DoElevate == \E t \in 1..2 : c.p + t <= MaxP + 2 /\ c' = Elevate(c, t) /\ UNCHANGED <<c0, al, be>> /\ Log(<<"E", t, 0>>)
DoTrim == \E ab \in {<<0, 4>>, <<2, 8>>, <<2, 5>>} : c' = Trim(c, At(ab[1]), At(ab[2])) /\ UNCHANGED <<c0, al, be>> /\ Log(<<"T", ab[1], ab[2]>>)
DoReverse == /\ c' = Reverse(c) /\ c0' = c0
             /\ al' = RNeg(al) /\ be' = RAdd(be, RMul(al, RAdd(LoU(c), HiU(c)))) /\ Log(<<"V", 0, 0>>)
DoRebound == \E ab \in {<<1, 3>>, <<-2, 6>>} :
               LET a == ab[1] b == ab[2]
                   r == RDiv(RSub(HiU(c), LoU(c)), b - a)     \* old = lo + r (u - a)
               IN /\ c' = Rebound(c, a, b) /\ c0' = c0
                  /\ al' = RMul(al, r) /\ be' = RAdd(be, RMul(al, RSub(LoU(c), RMul(r, a)))) /\ Log(<<"B", a, b>>)
Next == /\ Len(hist) < 2 + 3 * Depth
        /\ (DoInsert \/ DoRemove \/ DoElevate \/ DoTrim \/ DoReverse \/ DoRebound)
        /\ (Len(hist') = 2 + 3 * Depth => PrintT(<<"SCN">> \o hist'))

Shape == SameH(c0, c, LAMBDA u : RAdd(RMul(al, u), be))
IsProper == Proper(c)
\* the history is an observation only: the state is the curve
RoundTrip == \A i \in {3, 4} : LET d == Insert(c, At(i), 1)
                                   m == Mult(d.k, At(i)) - Mult(c.k, At(i))
                               IN m > 0 => /\ Removable(d, At(i), m)
                                           /\ LET e == Removed(d, At(i), m) IN VEq(e.k, c.k) /\ \A x \in 1..Len(c.P) : VEq(e.P[x], c.P[x])
=============================================================================
