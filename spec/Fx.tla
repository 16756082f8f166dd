--------------------------------- MODULE Fx ---------------------------------
(* Fixed-point reals and complex numbers with 75 fractional bits: the real   *)
(* value of x is x * 2^-75.  Errors of single operations are below 2^-74     *)
(* relative to the operands' magnitude, far below the double precision of    *)
(* the implementation (2^-53), whose deviation is bounded explicitly by the  *)
(* operators that compare recorded doubles.                                  *)
EXTENDS BigInt

FS == 75
FxInt(n) == BShl(BFromInt(n), FS)
FxMul(a, b) == BShr(BMul(a, b), FS)
FxDiv(a, b) == BFloorDiv(BShl(a, FS), b)
FxSqrt(a) == BISqrt(BShl(a, FS))
FxFloor(a) == BShr(a, FS)                                  \* a big integer
FxRound(a) == BShr(BAdd(a, BPow2(FS - 1)), FS)             \* half up
\* num/10^dec for a decimal constant given as a big integer numerator
RECURSIVE BPow10(_)
BPow10(k) == IF k = 0 THEN BOne ELSE BMul(BPow10(k - 1), BFromInt(10))
FxDec(num, dec) == BFloorDiv(BShl(num, FS), BPow10(dec))
FxNear(a, b, tol) == BLe(BAbs(BSub(a, b)), tol)
FxEps(k) == BPow2(FS - k)                                  \* 2^-k, k <= 75

\* complex numbers <<re, im>>
C_Mul(a, b) == <<BShr(BSub(BMul(a[1], b[1]), BMul(a[2], b[2])), FS),
                 BShr(BAdd(BMul(a[1], b[2]), BMul(a[2], b[1])), FS)>>
C_Add(a, b) == <<BAdd(a[1], b[1]), BAdd(a[2], b[2])>>
C_Sub(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2])>>
C_Conj(a) == <<a[1], BNeg(a[2])>>
C_Half(a) == <<BShr(a[1], 1), BShr(a[2], 1)>>
C_Div(a, b) == LET d == BAdd(BMul(b[1], b[1]), BMul(b[2], b[2]))
                   re == BAdd(BMul(a[1], b[1]), BMul(a[2], b[2]))
                   im == BSub(BMul(a[2], b[1]), BMul(a[1], b[2]))
               IN <<BFloorDiv(BShl(re, FS), d), BFloorDiv(BShl(im, FS), d)>>
CMul(a, b) == C_Mul(a, b)  \* the following are accelerated
CAdd(a, b) == C_Add(a, b)
CSub(a, b) == C_Sub(a, b)
CConj(a) == C_Conj(a)
CHalf(a) == C_Half(a)
CDiv(a, b) == C_Div(a, b)
CZero == <<<<0>>, <<0>>>>
COne == <<FxInt(1), <<0>>>>
CReal(r) == <<r, <<0>>>>
CNear(a, b, tol) == FxNear(a[1], b[1], tol) /\ FxNear(a[2], b[2], tol)
=============================================================================
