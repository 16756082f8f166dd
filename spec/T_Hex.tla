-------------------------------- MODULE T_Hex -------------------------------
(* C19: recorded conversions between byte strings and their text form.       *)
EXTENDS TraceBase, Hex

\* a byte string and the text made of it
TextOk == \A e \in {Ev} : e.mem /\ e.t = HexText(e.b)
\* a text and the bytes made of it; whatever lies beyond them is left alone
BytesOk == \A e \in {Ev} : e.mem /\ (\A k \in 1..Len(e.t) : IsDigit(e.t[k])) /\ e.b = HexBytes(e.t)
\* the text of a byte string read again
BackOk == \A e \in {Ev}, p \in {Trace[h].ev[i]} : e.mem /\ e.t = p.t /\ e.b = p.b

Next == \/ IsEvent("text") /\ Ok(TextOk)
        \/ IsEvent("bytes") /\ Ok(BytesOk)
        \/ IsEvent("back") /\ i > 0 /\ Ok(BackOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
