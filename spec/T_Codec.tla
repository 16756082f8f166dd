------------------------------ MODULE T_Codec -------------------------------
(* C04, C05, C06: recorded encoder and decoder calls against the formats.    *)
EXTENDS TraceBase, Codec

N == Trace[h].n
Q == 12289
InRange(v, m) == \A k \in 1..Len(v) : v[k] \in -m..m

PkEncOk == Ev.mem /\ Ev.b = PkEnc(Ev.hp)
PkDecOk == \A e \in {Ev} :
  /\ e.mem /\ e.ok = PkValid(e.b, N, Q)
  /\ e.ok => e.hp = PkFields(e.b, N)
SkEncOk == \A e \in {Ev} : e.mem /\ e.b = SkEnc(e.f, e.g, e.F)
SkDecOk == \A e \in {Ev} :
  /\ e.mem /\ e.ok = SkValid(e.b, N)
  /\ e.ok => /\ e.f = MapOfTC(SkFieldsF(e.b, N), FgWidth(N))
             /\ e.g = MapOfTC(SkFieldsG(e.b, N), FgWidth(N))
             /\ e.F = MapOfTC(SkFieldsC(e.b, N), 8)
\* the body decodes to the polynomial: with canonicity (MC_Codec) it is its encoding
CompOk == \A e \in {Ev} :
  /\ e.mem /\ e.ok = Fits(e.s, 7, 8 * BodyLen(N))
  /\ e.ok => e.b = Comp(e.s, 7, 8 * BodyLen(N))
DecSigOk == \A e \in {Ev} : \A st \in {SigRun(e.b, N)} :
  /\ e.mem /\ e.ok2 = DecOk(st) /\ e.ok = (DecOk(st) /\ e.b[1] = SigHeader(N))
  /\ e.ok2 => e.s2 = st.out
  /\ e.ok => e.s = st.out /\ e.salt = SaltOf(e.b)

\* signing with a serialized key (C05)
SkSignOk == \A e \in {Ev} : e.mem /\ (e.ok = SkValid(e.b, N)) /\ (~e.ok => e.untouched)

Next == \/ IsEvent("pkenc") /\ Ok(PkEncOk)
        \/ IsEvent("pkdec") /\ Ok(PkDecOk)
        \/ IsEvent("skenc") /\ Ok(SkEncOk)
        \/ IsEvent("skdec") /\ Ok(SkDecOk)
        \/ IsEvent("comp") /\ Ok(CompOk)
        \/ IsEvent("dec") /\ Ok(DecSigOk)
        \/ IsEvent("sksign") /\ Ok(SkSignOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
