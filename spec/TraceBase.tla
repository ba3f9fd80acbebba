----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation: the common part of every Trace*.tla.  Each line of    *)
(* the ndjson file named by the environment variable TRACE is one trace,   *)
(* a record with a sequence `ev` of events recorded from the real code.    *)
(* The behaviour replays the events one by one against the specification   *)
(* state `obj`; an event no action of the specification allows is reported *)
(* and ends its trace.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES tid,   \* index of the trace being replayed
          ix,    \* events consumed so far
          obj,   \* the specification's state
          bad    \* the last event was rejected

vars == <<tid, ix, obj, bad>>

Traces == ndJsonDeserialize(IOEnv.TRACE)

Guarded(e) == e   \* FALSE when e cannot be evaluated (see java/TraceOverrides.java)

Has(r, f) == f \in DOMAIN r

TraceInit(Init0(_)) ==
    /\ tid \in 1..Len(Traces)
    /\ ix = 0
    /\ bad = FALSE
    /\ obj = Init0(Traces[tid])

TraceStep(Allowed(_, _, _), Effect(_, _, _)) ==
    /\ ~bad
    /\ ix < Len(Traces[tid].ev)
    /\ ix' = ix + 1
    /\ tid' = tid
    /\ LET t == Traces[tid]
           e == t.ev[ix + 1]
       IN IF Guarded(Allowed(t, obj, e))
          THEN bad' = FALSE /\ obj' = Effect(t, obj, e)
          ELSE bad' = TRUE /\ obj' = obj /\ PrintT(<<"REJECT", tid, ix + 1, e.op>>)
=============================================================================
