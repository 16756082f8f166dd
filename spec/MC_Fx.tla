------------------------------- MODULE MC_Fx --------------------------------
(* Cross-checks of modules Fx, CFFT and Ring: accelerated operators against  *)
(* their definitions, and the definitions against algebraic identities.      *)
EXTENDS CFFT, Ring, TLC, FiniteSets, Randomization
VARIABLES n, t

Rnd(k) == (RandomElement(0..32767) % (2 * k + 1)) - k
RFx == BAdd(BShl(BFromInt(Rnd(16000)), 62), BShl(BFromInt(Rnd(16000)), RandomElement(0..50)))
RC == <<RFx, RFx>>
RVec(m) == CHOOSE v \in {[i \in 1..m |-> RC]} : TRUE
RReal(m) == CHOOSE v \in {[i \in 1..m |-> CReal(RFx)]} : TRUE
Tiny == BPow2(20)  \* 2^-55

ASSUME \A k \in 1..2048 : LET z == Tab[k] IN FxNear(BAdd(FxMul(z[1], z[1]), FxMul(z[2], z[2])), FxInt(1), BPow2(7))
ASSUME \A m \in {2, 4, 8, 64, 1024}, k \in {0, 1, 5, 700, 1023} :
          k < m => FxNear(Root(m, k)[1], Root(m, m - 1 - k)[1], BPow2(7)) /\ FxNear(Root(m, k)[2], BNeg(Root(m, m - 1 - k)[2]), BPow2(7))

Same(a, b) == \A x \in {a}, y \in {b} : x = y
Checks(m) ==
  \A a \in {RVec(m)}, b \in {RVec(m)}, f \in {RReal(m)}, g \in {RReal(m)} :
    /\ Same(VAdd(a, b), V_Add(a, b)) /\ Same(VSub(a, b), V_Sub(a, b)) /\ Same(VMul(a, b), V_Mul(a, b))
    /\ Same(VDiv(a, b), V_Div(a, b)) /\ Same(VConj(a), V_Conj(a)) /\ Same(VAbs1(a), V_Abs1(a))
    /\ Same(VNorm2(a), V_Norm2(a)) /\ VNear(a, b, BPow2(60)) = V_Near(a, b, BPow2(60)) /\ VNear(a, a, BZero)
    /\ \A i \in 1..m : /\ CMul(a[i], b[i]) = C_Mul(a[i], b[i]) /\ CAdd(a[i], b[i]) = C_Add(a[i], b[i])
                       /\ CSub(a[i], b[i]) = C_Sub(a[i], b[i]) /\ CDiv(a[i], b[i]) = C_Div(a[i], b[i])
                       /\ CConj(a[i]) = C_Conj(a[i]) /\ CHalf(a[i]) = C_Half(a[i])
    /\ Same(FFTx(f, Tab), R_FFT(f, Tab))
    /\ VNear(R_FFT(f, Tab), V_FFT(f), Tiny)
    /\ \A v \in {FFTx(f, Tab)}, w \in {FFTx(g, Tab)} :
         /\ Same(IFFTx(v, Tab), R_IFFT(v, Tab)) /\ VNear(IFFTx(v, Tab), f, Tiny)
         /\ m > 1 => /\ Same(SplitE(v), S_Even(v)) /\ Same(SplitO(v, Tab), S_Odd(v, Tab))
                     /\ VNear(SplitE(v), FFTx(Evens(f), Tab), Tiny) /\ VNear(SplitO(v, Tab), FFTx(Odds(f), Tab), Tiny)
                     /\ Same(MergeEO(SplitE(v), SplitO(v, Tab), Tab), S_Merge(SplitE(v), SplitO(v, Tab), Tab))
                     /\ VNear(MergeEO(SplitE(v), SplitO(v, Tab), Tab), v, Tiny)
         /\ \A p \in {[i \in 1..m |-> Rnd(20)]}, r \in {[i \in 1..m |-> Rnd(20)]} :
              /\ Same(RingMulZ(p, r), R_MulZ(p, r))
              /\ Same(RingMulB(ToBigPoly(p), ToBigPoly(r)), ToBigPoly(RingMulZ(p, r)))
              /\ Same(RingMulB(ToBigPoly(p), ToBigPoly(r)), R_MulB(ToBigPoly(p), ToBigPoly(r)))
              /\ \A P \in {FFTx(IntPolyC(p), Tab)}, R \in {FFTx(IntPolyC(r), Tab)} :
                   VNear(IFFTx(VMul(P, R), Tab), IntPolyC(RingMulZ(p, r)), Tiny)
              /\ FxNear(VNorm2(FFTx(IntPolyC(p), Tab)), FxInt(SumSeq([i \in 1..m |-> p[i] * p[i]])), Tiny)
    /\ \A p \in {[i \in 1..m |-> RandomElement(0..12288)]}, r \in {[i \in 1..m |-> RandomElement(0..12288)]} :
         /\ Same(RingMulQ(p, r, 12289), R_MulQ(p, r, 12289))
         /\ Same(EvalAllQ(p, r, 12289), [i \in 1..m |-> R_EvalQ(p, r[i], 12289)])
    /\ \A lay \in {[i \in 1..m |-> ((i * 5) + 2) % m]} : m > 1 => Same(ToOrder(FromOrder(a, lay), lay), a)

Init == n \in {1, 2, 4, 8, 16, 32} /\ t \in 1..3
Next == UNCHANGED <<n, t>>
Inv == Checks(n)
Spec == Init /\ [][Next]_<<n, t>>
=============================================================================
