------------------------------- MODULE T_NTT --------------------------------
(* C09: recorded transforms are the evaluations at the roots of x^n+1, and   *)
(* element-wise arithmetic on them is arithmetic of the ring.                *)
EXTENDS TraceBase, NTT
F == INSTANCE Zq

N == Trace[h].n
Roots == Trace[h].roots

RootsOk == \A rs \in {Roots} : IsRoots(rs, N)
MonoOk ==
  \A e \in {Ev}, rs \in {Roots} : \A m \in {Monomial(e.k, e.c, N)} :
     /\ IsTransform(e.F, m, rs)
     /\ e.back = m
     \* the inverse transform of a unit vector evaluates to that vector
     /\ IsPolyQ(e.inv, N) /\ IsTransform(m, e.inv, rs)
PairOk ==
  \A e \in {Ev}, rs \in {Roots} :
     /\ IsTransform(e.F, e.f, rs) /\ IsTransform(e.G, e.g, rs) /\ e.back = e.f
     /\ \A s \in {e.mulF, e.divF, e.addF, e.negF, e.mul, e.div, e.add, e.neg} : IsPolyQ(s, N)
     /\ \A k \in 1..N : /\ e.mulF[k] = F!Mul(e.F[k], e.G[k])
                        /\ F!IsDiv(e.F[k], e.G0[k], e.divF[k])
                        /\ e.addF[k] = F!Add(e.F[k], e.G[k])
                        /\ e.negF[k] = F!Neg(e.F[k])
                        /\ e.add[k] = F!Add(e.f[k], e.g[k])
                        /\ e.neg[k] = F!Neg(e.f[k])
     /\ e.mul = RingMulQ(e.f, e.g, q)
     /\ (\A k \in 1..N : e.G0[k] # 0) => RingMulQ(e.div, e.g, q) = e.f
     /\ IsTransform(e.divF, e.div, rs)
     /\ e.again = e.f

Next == \/ IsEvent("roots") /\ Ok(RootsOk)
        \/ IsEvent("mono") /\ Ok(MonoOk)
        \/ IsEvent("pair") /\ Ok(PairOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
