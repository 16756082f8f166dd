----------------------------- MODULE T_Sampler ------------------------------
(* C11: recorded samples and the bytes they drew.                            *)
EXTENDS TraceBase, Sampler

SampOk == \A e \in {Ev} : \A r \in {SampleFrom(Prm(e.mu, e.sigma, e.smin), e.b, 0, e.rev)} :
  /\ e.mem
  /\ \/ r[1] = "amb" /\ e.used >= r[2]
     \/ r[1] = "ok" /\ r[2] = e.used /\ r[3] = e.z
     \* the array ends before anything is accepted
     \/ r[1] = "short" /\ e.rev /\ e.z = 0 /\ r[2] <= e.used /\ e.used <= Len(e.b)
  /\ ("known" \in DOMAIN e) => e.z = e.known
PolyOk == \A e \in {Ev} : \A r \in {PolyFrom(Trace[h].n, e.b, 0)} :
  /\ e.mem
  /\ r[1] = "amb" \/ (r[1] = "ok" /\ r[2] = Len(e.b) /\ r[3] = e.poly)

Next == \/ IsEvent("samp") /\ Ok(SampOk)
        \/ IsEvent("genpoly") /\ Ok(PolyOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
