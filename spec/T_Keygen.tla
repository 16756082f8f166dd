------------------------------ MODULE T_Keygen ------------------------------
(* C03, C18: recorded key generations.                                       *)
EXTENDS TraceBase, Keygen

N == Trace[h].n
Lays == Trace[h].lays
BasisTol == FxEps(28)
TreeTol == FxEps(30)

\* the run of the loop on the bytes it drew: the first good candidate is the
\* last one drawn, and the key is made of it (of a candidate's bytes that come
\* many times in direct succession b has one copy)
Roots == RootsQ(N)
RunOk(b, wit, f, g, F, G) ==
  \A d \in {DrawAll(N, b)} :
    \/ d[1] = "amb" /\ PrintT(<<"NOTE", "keygen", "amb">>)
    \/ /\ d[1] = "ok"
       /\ Len(d[2]) >= 1 /\ Len(wit) >= Len(d[2])
       /\ d[2][Len(d[2])] = <<f, g>>
       /\ \A roots \in {Roots} : \A fates \in {[k \in 1..(Len(d[2]) - 1) |-> Fate(d[2][k][1], d[2][k][2], wit[k], roots, Tab)]} :
            /\ PrintT(<<"NOTE", "keygen", "rejected", fates>>)
            /\ \A k \in 1..Len(fates) : fates[k] # "ok"
KeygenOk ==
  \A e \in {Ev} : \A f \in {MapOfTC(SkFieldsF(e.sk, N), FgWidth(N))}, g \in {MapOfTC(SkFieldsG(e.sk, N), FgWidth(N))},
                     F \in {MapOfTC(SkFieldsC(e.sk, N), 8)} :
    /\ e.mem /\ e.inst = 1
    /\ PkValid(e.pk, N, Modulus) /\ SkValid(e.sk, N)
    /\ IsPublic(PkFields(e.pk, N), f, g)
    /\ \A G \in {Complete(f, g, F, Tab)} : GoodKey(f, g, F, G, Tab) /\ (e.lng \/ RunOk(e.b, e.wit, f, g, F, G))
\* what the decoders make of the keys of the previous event
ReloadOk ==
  \A e \in {Ev}, p \in {Trace[h].ev[i]} :
    /\ e.ok
    /\ e.f = MapOfTC(SkFieldsF(p.sk, N), FgWidth(N)) /\ e.g = MapOfTC(SkFieldsG(p.sk, N), FgWidth(N))
    /\ e.F = MapOfTC(SkFieldsC(p.sk, N), 8) /\ e.h = PkFields(p.pk, N)
\* the lower-level generator: basis [[g, -f], [G, -F]], its tree, h
Blk(v, k) == SubSeq(v, k * N + 1, (k + 1) * N)
BasisOf(K) == ToOrder(K.vg, Lays[Lg(N)]) \o ToOrder(VNeg(K.vf), Lays[Lg(N)]) \o ToOrder(K.vG, Lays[Lg(N)]) \o ToOrder(VNeg(K.vF), Lays[Lg(N)])
IntBlk(B, k) == IntsOf(FromOrder(Blk(B, k), Lays[Lg(N)]), Tab)
Neg(p) == [k \in 1..Len(p) |-> -p[k]]
LowOk ==
  \A e \in {Ev} :
    /\ e.mem /\ Len(e.B) = 4 * N
    /\ \A g \in {IntBlk(e.B, 0)}, f \in {Neg(IntBlk(e.B, 1))}, G \in {IntBlk(e.B, 2)}, F \in {Neg(IntBlk(e.B, 3))} :
         /\ GoodKey(f, g, F, G, Tab)
         /\ IsPublic(e.h, f, g)
         /\ \A K \in {Expand(f, g, F, G, Tab)} :
              /\ VNear(e.B, BasisOf(K), BasisTol)
              /\ VNear(e.T, Flat(K.tree, Lays), TreeTol)
         /\ (e.lng \/ RunOk(e.b, e.wit, f, g, F, G))

Next == \/ IsEvent("keygen") /\ Ok(KeygenOk)
        \/ IsEvent("reload") /\ Ok(ReloadOk)
        \/ IsEvent("lowkey") /\ Ok(LowOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
