------------------------------- MODULE T_Sign -------------------------------
(* C01, C12, C17, C18: recorded sessions with one key pair - expansion of    *)
(* the secret key, signatures (with the bytes their generator handed out     *)
(* and the words the hash squeezed) and verifications.  The specification    *)
(* recomputes the whole run.                                                 *)
EXTENDS TraceBase, Scheme

VARIABLE key
N == Trace[h].n
Lays == Trace[h].lays

\* tolerances of the implementation's double precision
BasisTol == FxEps(28)
TreeTol == FxEps(30)
InRange(s) == BLe(SigMin(N), s) /\ BLe(s, SigMax)

KeyStep == /\ IsEvent("key")
           /\ \E e \in {Ev} : key' = Expand(e.f, e.g, e.F, e.G, Tab)
BasisOf(K) == ToOrder(K.vg, Lays[Lg(N)]) \o ToOrder(VNeg(K.vf), Lays[Lg(N)]) \o ToOrder(K.vG, Lays[Lg(N)]) \o ToOrder(VNeg(K.vF), Lays[Lg(N)])
ExpandOk == \A e \in {Ev} : /\ e.mem
                            /\ VNear(e.B, BasisOf(key), BasisTol)
                            /\ VNear(e.T, Flat(key.tree, Lays), TreeTol)
LeavesOk == \A s \in {Leaves(key.tree)} : \A k \in 1..N : InRange(s[k])
GOk == Ev.G = key.G

\* the signature is the one the specification makes of the same bytes; of a
\* candidate's bytes that come many times in direct succession e.b has one
\* copy (e.left_out others): what is rejected once is rejected again
SignOk ==
  \A e \in {Ev} : \A c \in {HashWords(e.words, N, Modulus, 65536)} :
  \A r \in {SignFrom(key, c, TargetOf(key, c, Tab), e.b, 0, <<>>, Tab)} :
    /\ e.ok /\ e.mem /\ e.hashed /\ e.inst = 1
    /\ Len(e.salt) = SaltLen
    /\ PrintT(<<"NOTE", "signing", r[1], r[4]>>)
    /\ \/ r[1] = "amb"
       \/ r[1] = "ok" /\ r[2] = Len(e.b) /\ e.sig = SigBytes(e.salt, r[3])
\* ... and is accepted
VerOk == \A e \in {Ev} : \A c \in {HashWords(e.words, N, Modulus, 65536)} :
    e.mem /\ e.ok /\ Accepts(e.pk, e.sig, c)

\* the entry points are one function of key, message and random bytes
SameOk == \A a \in {Trace[h].ev[i - 1]}, b \in {Trace[h].ev[i]} : a.salt = b.salt /\ a.b = b.b /\ a.sig = b.sig

\* whatever the key pair is made of
OSignOk == Ev.ok /\ Ev.mem

Step == \/ IsEvent("lowgen")
        \/ IsEvent("pairgen") /\ Ok(Ev.mem)
        \/ IsEvent("osign") /\ Ok(OSignOk)
        \/ IsEvent("expand") /\ Ok(ExpandOk)
        \/ IsEvent("leaves") /\ Ok(LeavesOk)
        \/ IsEvent("recompute") /\ Ok(GOk)
        \/ IsEvent("sign") /\ Ok(SignOk)
        \/ IsEvent("samesig") /\ Ok(SameOk)
        \/ IsEvent("verify") /\ Ok(VerOk)
        \/ Finished
Next == KeyStep \/ (Step /\ UNCHANGED key)
Spec == TraceInit /\ key = <<>> /\ [][Next]_<<h, i, key>>
=============================================================================
