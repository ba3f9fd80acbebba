----------------------------- MODULE MC_Batch -----------------------------
(***************************************************************************)
(* Every interleaving of every small batch: the outcome never depends on   *)
(* the schedule, every input is worked on at most once, and exactly once   *)
(* when the call returns; every call ends.                                 *)
(***************************************************************************)
EXTENDS Batch, TLC
CONSTANTS MaxN, MaxW, MaxGate
VARIABLES s, gate
vars == <<s, gate>>
Init == \E n \in 0..MaxN, g \in 0..MaxGate : \E F \in SUBSET (1..n) :
            /\ gate = g /\ s = New(n, F, n < g)
            /\ PrintT(<<"SCN", n, g>> \o [i \in 1..n |-> IF i \in F THEN 1 ELSE 0])
Workers == 0..MaxW
StartAny == \E w \in Workers, i \in s.todo : CanStart(s, w, i) /\ s' = Start(s, w, i)
EndAny == \E r \in s.run : LET ok == r[1] \notin s.fails IN CanEnd(s, r[2], r[1], ok) /\ s' = End(s, r[2], r[1], ok)
Leave == \/ CanReturn(s) /\ s' = Return(s)
         \/ \E i \in s.failed : CanThrow(s, i) /\ s' = Throw(s, i)
Next == gate' = gate /\ (StartAny \/ EndAny \/ Leave)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Outcome == s.res # <<>> => s.res = Expected(s)
Partition == /\ s.todo \cap s.built = {} /\ s.todo \cap s.failed = {} /\ s.built \cap s.failed = {}
             /\ \A r \in s.run : r[1] \notin s.todo \cup s.built \cup s.failed
             /\ s.todo \cup s.built \cup s.failed \cup {r[1] : r \in s.run} = 1..s.n
SerialOrder == s.serial => \A i \in s.built \cup s.failed : \A j \in s.todo : i < j
Ends == <>(s.res # <<>>)
=============================================================================
