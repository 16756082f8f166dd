------------------------------- MODULE T_Hash -------------------------------
(* C07: recorded calls of the hash, alone and inside signing and             *)
(* verification.  The XOF is the environment: what it absorbed and handed    *)
(* out is part of the event.                                                 *)
EXTENDS TraceBase, Hash, BigInt

N == Trace[h].n
Q == 12289
Words == 65536
\* absorbed exactly salt followed by message, then squeezed
AbsorbOk(o, salt, msg) == /\ o.inst = 1
                          /\ o.ops = IF Len(salt) + Len(msg) = 0 THEN "FR" ELSE "AFR"
                          /\ o.len = BFromInt(Len(salt) + Len(msg))
                          /\ IF Len(salt) + Len(msg) <= 4096 THEN o.kept = salt \o msg ELSE TRUE
HashOk == \A e \in {Ev} :
  /\ e.mem
  /\ AbsorbOk(e.obs, e.salt, e.msg)
  /\ \A kept \in {HashWords(e.words, N, Q, Words)} : Len(kept) = N /\ e.poly = kept
EntryOk == \A e \in {Ev} : e.ok /\ AbsorbOk(e.obs, e.salt, e.msg) /\ Len(HashKept(e.words, Q, Words)) >= N
LongOk == \A e \in {Ev} : e.ok /\ e.len = BAdd(e.mlen, BFromInt(40))

Next == \/ IsEvent("hash") /\ Ok(HashOk)
        \/ IsEvent("signhash") /\ Ok(EntryOk)
        \/ IsEvent("verhash") /\ Ok(EntryOk)
        \/ IsEvent("long") /\ Ok(LongOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
