----------------------------- MODULE MC_BigInt ------------------------------
(* Accelerated operators against their TLA+ definitions.                     *)
EXTENDS BigInt, Ring, Fx, TLC, Randomization
VARIABLES a, b
Small == {-65537, -32768, -32767, -1, 0, 1, 2, 5, 32767, 32768, 12289, 1073741824, 2147483647, -2147483647}
Bigs == {B_FromInt(x) : x \in Small} \cup
        { B_Mul(B_FromInt(x), B_Pow2(k)) : x \in {1, -1, 12289, -32767, 2147483647}, k \in {14, 15, 61, 62, 75, 136} } \cup
        { B_Add(B_Mul(B_FromInt(x), B_Pow2(k)), B_FromInt(-7)) : x \in {1, -1, 99}, k \in {60, 63, 64, 90} }
Init == a \in RandomSubset(30, Bigs) /\ b = <<0>>
Next == b = <<0>> /\ b' \in RandomSubset(8, Bigs) /\ UNCHANGED a
Ok == /\ IsBig(a) /\ IsBig(BAdd(a, b))
      /\ BAdd(a, b) = B_Add(a, b)
      /\ BSub(a, b) = B_Sub(a, b)
      /\ BMul(a, b) = B_Mul(a, b)
      /\ BCmp(a, b) = B_Cmp(a, b)
      /\ BNeg(a) = B_Neg(a)
      /\ b[1] # 0 => BFloorDiv(a, b) = B_FloorDiv(a, b)
      /\ BShr(a, 17) = B_Shr(a, 17) /\ BShl(a, 17) = B_Shl(a, 17)
      /\ BShr(a, 75) = B_Shr(a, 75) /\ BShl(a, 75) = B_Shl(a, 75)
      /\ a[1] >= 0 => BISqrt(a) = B_ISqrt(a)
      /\ BToInt(a) = B_ToInt(a)
      /\ BBitLen(a) = B_BitLen(a)
      /\ LET x == <<a, b>>  y == <<b, BNeg(a)>>
         IN /\ CMul(x, y) = C_Mul(x, y) /\ CAdd(x, y) = C_Add(x, y) /\ CSub(x, y) = C_Sub(x, y)
            /\ CConj(x) = C_Conj(x) /\ CHalf(x) = C_Half(x)
            /\ (a[1] # 0) => CDiv(x, y) = C_Div(x, y)
      /\ LET f == <<a, b, BNeg(a), BOne>> g == <<b, BAdd(a, b), BZero, a>>
         IN RingMulB(f, g) = R_MulB(f, g)
      /\ LET f == <<3, -4, 12288, 7, 0, 1, -6144, 6145>> g == <<5, 0, -1, 12288, 12288, 77, 1, BToInt(a) % 12289>>
         IN /\ RingMulQ(f, g, 12289) = R_MulQ(f, g, 12289)
            /\ RingMulZ(f, g) = R_MulZ(f, g)
            /\ EvalAllQ(f, <<7, 49, BToInt(b) % 12289>>, 12289) = <<R_EvalQ(f, 7, 12289), R_EvalQ(f, 49, 12289), R_EvalQ(f, BToInt(b) % 12289, 12289)>>
ASSUME \A x \in Small : BFromInt(x) = B_FromInt(x) /\ BToInt(BFromInt(x)) = x
ASSUME \A x \in Small, y \in -40..40 : y # 0 => BFloorDiv(BFromInt(x), BFromInt(y)) = (IF y > 0 THEN BFromInt(x \div y) ELSE BFromInt((-x) \div (-y)))
=============================================================================
