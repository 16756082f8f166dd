------------------------------ MODULE T_Verify ------------------------------
(* C02: recorded verdicts.  `words` is what the hash of salt and message     *)
(* squeezes; `hashed` says that whatever was hashed was salt and message.    *)
EXTENDS TraceBase, Scheme

N == Trace[h].n
Words == 65536
HashOf(e) == HashWords(e.words, N, Modulus, Words)
\* the lower-level entry takes the public polynomial itself
Formed(e) == WellFormed(e.pk, e.sig, N)
Short(e) == \A c \in {HashOf(e)} : Len(c) = N /\ BLe(VerNorm(e.pk, e.sig, c), Bound(N))
Class(e) == IF ~Formed(e) THEN "malformed"
            ELSE LET c == HashOf(e) IN With(BCmp(VerNorm(e.pk, e.sig, c), Bound(N)), LAMBDA o :
                   IF o = 0 THEN "at the bound" ELSE IF o < 0 THEN "short" ELSE "long")
VerOk ==
  \A e \in {Ev} : \A cl \in {Class(e)} :
    /\ PrintT(<<"NOTE", e.what, cl>>)
    /\ e.mem /\ e.hashed
    /\ e.ok = (cl \in {"short", "at the bound"})
    /\ e.again = e.ok

Next == \/ IsEvent("ver") /\ Ok(VerOk)
        \/ IsEvent("verlow") /\ Ok(VerOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
