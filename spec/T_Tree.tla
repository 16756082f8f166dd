------------------------------- MODULE T_Tree -------------------------------
(* C12: recorded Gram matrices, LDL trees and nearest-plane samplings.       *)
EXTENDS TraceBase, Lattice

N == Trace[h].n
Lays == Trace[h].lays
Lay(n) == Lays[Lg(n)]
Blk(v, k) == SubSeq(v, k * N + 1, (k + 1) * N)
InNat(v, k) == FromOrder(Blk(v, k), Lay(N))
MaxMag(v) == FoldLeft(LAMBDA m, z : BMax(m, C_Abs1(z)), FxInt(1), v)
Rel(x, k) == BAdd(BShr(x, k), BFromInt(16))

GramOk == \A e \in {Ev} :
  \A a \in {Blk(e.B, 0)}, b \in {Blk(e.B, 1)}, c \in {Blk(e.B, 2)}, d \in {Blk(e.B, 3)}, m \in {MaxMag(e.B)} :
  \A g00 \in {VAdd(VMul(a, VConj(a)), VMul(b, VConj(b)))}, g10 \in {VAdd(VMul(c, VConj(a)), VMul(d, VConj(b)))},
     g11 \in {VAdd(VMul(c, VConj(c)), VMul(d, VConj(d)))} :
    /\ e.mem
    /\ VNear(e.G, g00 \o VConj(g10) \o g10 \o g11, Rel(FxMul(m, m), 48))

\* well conditioned only: the recursion divides, so an entry of the tree is as
\* exact as the smallest diagonal value allows
LdlOk == \A e \in {Ev} :
  \A t \in {LdlTree(InNat(e.G, 0), InNat(e.G, 2), InNat(e.G, 3), e.sigma, SigMin(512), Tab)} :
    /\ e.mem
    /\ Len(e.T) = N * (Lg(N) + 1)
    /\ \A w \in {Flat(t, Lays)} : \A m \in {MaxMag(w)} : VNear(e.T, w, Rel(FxMul(m, m), 24))

RECURSIVE TreeOf(_, _, _, _)
\* node k (0-based) of row j of the flat tree
TreeOf(T, j, k, smin) ==
  LET n == N \div P2(j) IN
  IF j = Lg(N) THEN With(T[j * N + k + 1][1], LAMBDA s : With([sigma |-> s, dev |-> Dev(s, smin)], LAMBDA r : r))
  ELSE With([l |-> FromOrder(SubSeq(T, j * N + k * n + 1, j * N + (k + 1) * n), Lay(n)),
             lo |-> TreeOf(T, j + 1, 2 * k, smin), hi |-> TreeOf(T, j + 1, 2 * k + 1, smin)], LAMBDA r : r)
IntTol == FxEps(20)
FfsOk == \A e \in {Ev} : \A t \in {TreeOf(e.T, 0, 0, e.smin)} :
  \A r \in {Samp(t, FromOrder(e.t0, Lay(N)), FromOrder(e.t1, Lay(N)), e.b, 0, Tab)} :
    /\ e.mem
    /\ PrintT(<<"NOTE", "sampling", r[1]>>)
    /\ \/ r[1] = "amb"
       \/ /\ r[1] = "ok" /\ r[2] = Len(e.b)
          /\ VNear(e.z0, ToOrder(r[3], Lay(N)), IntTol) /\ VNear(e.z1, ToOrder(r[4], Lay(N)), IntTol)

Next == \/ IsEvent("gram") /\ Ok(GramOk)
        \/ IsEvent("ldl") /\ Ok(LdlOk)
        \/ IsEvent("ffs") /\ Ok(FfsOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
