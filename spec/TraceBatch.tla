----------------------------- MODULE TraceBatch -----------------------------
(***************************************************************************)
(* Conformance of the batch builders and bulk evaluators.  A "call" starts *)
(* a batch; "start"/"end" events are recorded inside the function applied  *)
(* to each input, in the order they happened; "ret"/"thr" end it.          *)
(***************************************************************************)
EXTENDS TraceBase, Batch
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* a bulk evaluation may repeat work to find out which exception to throw: only its outcome counts
BulkOutcome(e) == IF e.r = "" THEN e.got = e.want /\ e.first = 0
                  ELSE e.first > 0 /\ e.r = e.kind
Allowed(t, o, e) ==
    CASE e.op = "call"  -> Len(e.serialvals) = e.n
      [] e.op = "start" -> CanStart(o.s, e.w, e.i)
      [] e.op = "end"   -> CanEnd(o.s, e.w, e.i, e.ok)
      [] e.op = "ret"   -> CanReturn(o.s) /\ e.vals = o.vals
      [] e.op = "thr"   -> CanThrow(o.s, e.i) /\ e.i = Expected(o.s)[2]
      \* instrumented bulk transform: result or the first failing input's exception
      [] e.op = "bulk"  -> IF e.fails = <<>> THEN e.r = 0 /\ e.got = e.want ELSE e.r = Min(SetOf(e.fails))
      [] e.op = "order" -> e.serial => \A i \in 1..Len(e.seq) : e.seq[i] = i /\ e.ws[i] = 0
      \* the library's own bulk evaluators and batch builders against one-by-one calls, bit by bit
      [] e.op = "lib"   -> BulkOutcome(e)
      [] OTHER -> FALSE
Effect(t, o, e) ==
    CASE e.op = "call"  -> [s |-> New(e.n, SetOf(e.fails), e.n < e.gate), vals |-> e.serialvals]
      [] e.op = "start" -> [o EXCEPT !.s = Start(@, e.w, e.i)]
      [] e.op = "end"   -> [o EXCEPT !.s = End(@, e.w, e.i, e.ok)]
      [] e.op = "ret"   -> [o EXCEPT !.s = Return(@)]
      [] e.op = "thr"   -> [o EXCEPT !.s = Throw(@, e.i)]
      [] OTHER -> o
Init == TraceInit(LAMBDA t : [s |-> New(0, {}, TRUE), vals |-> <<>>])
Next == TraceStep(Allowed, Effect)
=============================================================================
