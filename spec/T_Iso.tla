------------------------------- MODULE T_Iso --------------------------------
(* C16: calls recorded alone, in sequences, under schedules and in free      *)
(* concurrency.  An event carries the calls that ran together; results are   *)
(* digests of all outputs.                                                   *)
EXTENDS TraceBase, Iso
VARIABLE memo

Pairs(e) == { <<<<c.fn, c.inp>>, c.out>> : c \in { e.calls[k] : k \in 1..Len(e.calls) } }
\* inputs are as before, nothing next to the outputs was written
Clean(e) == \A k \in 1..Len(e.calls) : e.calls[k].ro /\ e.calls[k].guard
Complete(e) == Len(e.calls) = e.want /\ ~e.died
Step == /\ More /\ ~Has("crash") /\ Ev.op \in {"alone", "sequence", "schedule", "free"}
        /\ i' = i + 1 /\ h' = h
        /\ \E e \in {Ev} : \E ps \in {Pairs(e)} :
             /\ Ok(Complete(e) /\ Clean(e) /\ e.races = 0)
             /\ Ok(Consistent(memo, ps))
             /\ memo' = Merge(memo, ps)
Next == Step \/ (Finished /\ UNCHANGED memo)
Spec == TraceInit /\ memo = <<>> /\ [][Next]_<<h, i, memo>>
=============================================================================
