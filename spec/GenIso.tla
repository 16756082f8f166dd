------------------------------- MODULE GenIso -------------------------------
(* Schedules for the real code: every interleaving of Threads calls of Segs  *)
(* segments each.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Threads, Segs
VARIABLES s
Count(q, t) == Cardinality({ k \in 1..Len(q) : q[k] = t })
Init == s = <<>>
Next == \E t \in 0..(Threads - 1) : Count(s, t) < Segs /\ s' = Append(s, t)
Spec == Init /\ [][Next]_s
RECURSIVE All(_)
All(S) == IF \A q \in S : Len(q) = Threads * Segs THEN S
          ELSE All({ Append(p[1], p[2]) : p \in { x \in S \X (0..(Threads - 1)) : Count(x[1], x[2]) < Segs } })
\* threads are interchangeable: the first to run is 0, the next new one 1, ...
First(q, t) == CHOOSE k \in 1..Len(q) : q[k] = t /\ \A j \in 1..(k - 1) : q[j] # t
Ordered(q) == \A t \in 1..(Threads - 1) : First(q, t - 1) < First(q, t)
\* segments run back to back are one
Switches(q) == Cardinality({ k \in 1..(Len(q) - 1) : q[k] # q[k + 1] })
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [s |-> q] : q \in { x \in All({<<>>}) : Ordered(x) /\ Switches(x) >= Threads } }))
Done == Len(s) <= Threads * Segs
=============================================================================
