------------------------------ MODULE TraceBase -----------------------------
(* Histories recorded from the real code: one JSON object per line of the    *)
(* file $TRACE, each a sequence of events.  A state is a position in one of  *)
(* the histories; an event is consumed only by an action of the              *)
(* specification that allows it, so a history the specification does not     *)
(* allow ends in a deadlock before its end.  An event with a "crash" field   *)
(* (signal, sanitizer report, hang inside the call) is allowed by no action. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Util

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i

TraceInit == h \in 1..Len(Trace) /\ i = 0
More == i < Len(Trace[h].ev)
Ev == Trace[h].ev[i + 1]
Has(f) == f \in DOMAIN Ev
IsEvent(op) == /\ More
               /\ ~Has("crash")
               /\ Has("op") /\ Ev.op = op
               /\ i' = i + 1 /\ h' = h
\* a condition on the recorded event, evaluated as a plain expression
Ok(cond) == cond = TRUE
Finished == ~More /\ UNCHANGED <<h, i>>

\* type guards for recorded values
IsIntSeq(s, n, lo, hi) == Len(s) = n /\ \A k \in 1..n : s[k] >= lo /\ s[k] <= hi
=============================================================================
