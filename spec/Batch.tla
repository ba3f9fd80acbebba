------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Size-gated parallel batches and bulk evaluations: a call applies a pure *)
(* function to n independent inputs, by the calling thread alone (in       *)
(* order) below the gate, by any number of workers above it, and returns   *)
(* the results in input order or the exception of the first failing input. *)
(*                                                                         *)
(* State of a call (a record, so that a trace can replay many calls):      *)
(*   n, fails        the inputs 1..n, those whose function throws          *)
(*   serial          below the gate                                       *)
(*   todo            inputs not yet taken                                  *)
(*   run             input -> worker, for inputs being worked on           *)
(*   built, failed   inputs finished, well or by an exception              *)
(*   res             <<>>, or <<"ok">>, or <<"throw", i>>                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
New(n, fails, serial) ==
    [n |-> n, fails |-> fails, serial |-> serial, todo |-> 1..n, run |-> {}, built |-> {}, failed |-> {}, res |-> <<>>]
Busy(s, w) == \E r \in s.run : r[2] = w
\* worker w takes input i; below the gate the caller (worker 0) takes them in order, one after the other
CanStart(s, w, i) ==
    /\ s.res = <<>> /\ i \in s.todo /\ ~Busy(s, w)
    /\ s.serial => w = 0 /\ i = Min(s.todo) /\ s.run = {}
Start(s, w, i) == [s EXCEPT !.todo = @ \ {i}, !.run = @ \cup {<<i, w>>}]
CanEnd(s, w, i, ok) == <<i, w>> \in s.run /\ ok = (i \notin s.fails)
End(s, w, i, ok) ==
    [s EXCEPT !.run = @ \ {<<i, w>>}, !.built = IF ok THEN @ \cup {i} ELSE @, !.failed = IF ok THEN @ ELSE @ \cup {i}]
\* the call returns: nothing is running any more, and the outcome is that of a serial loop
CanReturn(s) == s.res = <<>> /\ s.run = {} /\ s.failed = {} /\ s.built = 1..s.n
CanThrow(s, i) == s.res = <<>> /\ s.run = {} /\ s.failed # {} /\ i = Min(s.failed) /\ 1..(i - 1) \subseteq s.built
Return(s) == [s EXCEPT !.res = <<"ok">>]
Throw(s, i) == [s EXCEPT !.res = <<"throw", i>>]
\* what a serial loop gives
Expected(s) == IF s.fails \cap (1..s.n) = {} THEN <<"ok">> ELSE <<"throw", Min(s.fails \cap (1..s.n))>>
=============================================================================
