------------------------------- MODULE T_FFT --------------------------------
(* C10: recorded transforms, element-wise operations, split, merge, adjoint  *)
(* and norms against exact ring arithmetic (fixed point, 75 bits).           *)
(* Tolerances: L is the 1-norm of the input, an upper bound for every value  *)
(* and partial sum; a transform of up to 10 levels in double precision is    *)
(* within L * 2^-46 of the exact one.                                        *)
EXTENDS TraceBase, CFFT, Ring

N == Trace[h].n
Lay == Trace[h].lay
Lay2 == Trace[h].lay2
IsPerm(p, n) == Len(p) = n /\ { p[k] : k \in 1..n } = 0..(n - 1)
Rel(x, k) == BAdd(BShr(x, k), BFromInt(16))

RootsOk == /\ IsPerm(Lay, N) /\ IsPerm(Lay2, N \div 2)
           /\ VNear(Ev.roots, [k \in 1..N |-> Root(N, Lay[k])], FxEps(50))

AdjC(f) == LET n == Len(f) IN [k \in 1..n |-> IF k = 1 THEN f[1] ELSE <<BNeg(f[n + 2 - k][1]), f[n + 2 - k][2]>>]
SumSq(f) == FoldLeft(LAMBDA acc, z : BAdd(acc, FxMul(z[1], z[1])), <<0>>, f)
FftOk ==
  \A e \in {Ev} : \A f \in {e.f}, lay \in {Lay}, lay2 \in {Lay2}, L \in {VAbs1(e.f)} :
  \A tol \in {Rel(L, 46)}, X \in {FFTx(f, Tab)} :
    /\ VNear(e.F, ToOrder(X, lay), tol)
    /\ VNear(e.back, f, tol)
    /\ VNear(e.s0, ToOrder(FFTx(Evens(f), Tab), lay2), tol)
    /\ VNear(e.s1, ToOrder(FFTx(Odds(f), Tab), lay2), tol)
    /\ VNear(e.m, e.F, tol)
    /\ VNear(e.adj, ToOrder(VConj(X), lay), tol)
    /\ VNear(e.adjc, AdjC(f), tol)
    /\ \A s \in {SumSq(f)} : FxNear(e.normc, s, Rel(s, 44)) /\ FxNear(e.normf, s, Rel(s, 40))

NearRel(r, exact, mag, k) == CNear(r, exact, Rel(mag, k))
BinOk ==
  \A e \in {Ev} :
  \A a \in {e.a}, b \in {e.b} :
    /\ \A s \in {e.add, e.addto, e.sub, e.mul, e.div} : Len(s) = N
    /\ \A k \in 1..N :
       \A x \in {a[k]}, y \in {b[k]} : \A p \in {C_Abs1(x)}, r \in {C_Abs1(y)}, d \in {CDiv(x, y)} :
         /\ NearRel(e.add[k], CAdd(x, y), BAdd(p, r), 50)
         /\ NearRel(e.addto[k], CAdd(x, y), BAdd(p, r), 50)
         /\ NearRel(e.sub[k], CSub(x, y), BAdd(p, r), 50)
         /\ NearRel(e.mul[k], CMul(x, y), FxMul(p, r), 49)
         /\ NearRel(e.div[k], d, C_Abs1(d), 46)

IntOk == \A e \in {Ev} : /\ e.mul = RingMulZ(e.f, e.g)
                         /\ e.sub = [k \in 1..N |-> e.f[k] - e.g[k]]
                         /\ e.div = e.g

Next == \/ IsEvent("roots") /\ Ok(RootsOk)
        \/ IsEvent("fft") /\ Ok(FftOk)
        \/ IsEvent("bin") /\ Ok(BinOk)
        \/ IsEvent("int") /\ Ok(IntOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
