------------------------------- MODULE BigInt -------------------------------
(* Integers of any size (TLC's own integers have 32 bits).                   *)
(*                                                                           *)
(* An integer is a tuple <<s, l1, ..., lk>>: s is its sign (-1, 0, 1), li    *)
(* are the limbs of its magnitude, base 2^15, least significant first, with  *)
(* no leading zero limb (zero is <<0>>).                                     *)
(*                                                                           *)
(* Every operator has an executable TLA+ definition; the ones listed in      *)
(* java/FalconOverrides.java are accelerated by java.math.BigInteger.        *)
(* MC_BigInt checks each accelerated operator against its definition here    *)
(* (the primed twins B_...) and against TLC's integers.                      *)
EXTENDS Integers, Sequences, SequencesExt

Base == 32768

IsBig(a) == /\ DOMAIN a = 1..Len(a) /\ Len(a) >= 1 /\ a[1] \in {-1, 0, 1}
            /\ \A i \in 2..Len(a) : a[i] \in 0..(Base - 1)
            /\ (a[1] = 0) = (Len(a) = 1)
            /\ Len(a) > 1 => a[Len(a)] # 0

-----------------------------------------------------------------------------
(* magnitudes *)
Idx(n) == [i \in 1..n |-> i]
Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
RECURSIVE MTrim(_)
MTrim(m) == IF m = <<>> THEN <<>>
            ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m
LMax(a, b) == IF a >= b THEN a ELSE b
MAdd(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET s == acc[1] + Dig(a, i) + Dig(b, i)
                      IN <<s \div Base, Append(acc[2], s % Base)>>,
                    <<0, <<>>>>, Idx(LMax(Len(a), Len(b))))
  IN MTrim(Append(r[2], r[1]))
MSub(a, b) == \* a >= b
  LET r == FoldLeft(LAMBDA acc, i :
                      LET s == Dig(a, i) - Dig(b, i) - acc[1]
                      IN <<IF s < 0 THEN 1 ELSE 0, Append(acc[2], s % Base)>>,
                    <<0, <<>>>>, Idx(Len(a)))
  IN MTrim(r[2])
MMulDig(a, d) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET s == acc[1] + a[i] * d
                      IN <<s \div Base, Append(acc[2], s % Base)>>,
                    <<0, <<>>>>, Idx(Len(a)))
  IN MTrim(Append(r[2], r[1]))
MMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA acc, j :
                  LET k == Len(b) + 1 - j
                  IN MAdd(IF acc = <<>> THEN <<>> ELSE <<0>> \o acc, MMulDig(a, b[k])),
                <<>>, Idx(Len(b)))
RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpFrom(a, b, Len(a))
Mag(a) == SubSeq(a, 2, Len(a))
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

RECURSIVE Pow2Dig(_)
Pow2Dig(k) == IF k = 0 THEN 1 ELSE 2 * Pow2Dig(k - 1)
MPow2(k) == [i \in 1..((k \div 15) + 1) |-> IF i = (k \div 15) + 1 THEN Pow2Dig(k % 15) ELSE 0]

\* floor(a / b) on magnitudes, bit by bit
MBit(a, k) == (Dig(a, (k \div 15) + 1) \div Pow2Dig(k % 15)) % 2
MDivMod(a, b) ==
  LET nb == 15 * Len(a)
      r == FoldLeft(LAMBDA acc, j :
              LET k  == nb - j
                  r2 == MAdd(MAdd(acc[2], acc[2]), IF MBit(a, k) = 1 THEN <<1>> ELSE <<>>)
                  q2 == MAdd(acc[1], acc[1])
              IN IF MCmp(r2, b) >= 0 THEN <<MAdd(q2, <<1>>), MSub(r2, b)>> ELSE <<q2, r2>>,
            <<<<>>, <<>>>>, Idx(nb))
  IN r

-----------------------------------------------------------------------------
(* definitions (pure TLA+) *)
B_FromInt(n) == \* |n| < 2^31
  LET a == IF n < 0 THEN -n ELSE n
  IN Mk(IF n < 0 THEN -1 ELSE 1, MTrim(<<a % Base, (a \div Base) % Base, (a \div Base) \div Base>>))
B_Add(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
  ELSE LET c == MCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN <<0>>
          ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
          ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
B_Neg(a) == [a EXCEPT ![1] = -a[1]]
B_Sub(a, b) == B_Add(a, B_Neg(b))
B_Mul(a, b) == Mk(a[1] * b[1], MMul(Mag(a), Mag(b)))
B_Cmp(a, b) == LET d == B_Sub(a, b) IN d[1]
B_FloorDiv(a, b) == \* b # 0
  LET r == MDivMod(Mag(a), Mag(b))
  IN IF a[1] * b[1] >= 0 THEN Mk(1, MTrim(r[1]))
     ELSE IF r[2] = <<>> THEN Mk(-1, MTrim(r[1])) ELSE Mk(-1, MAdd(r[1], <<1>>))
B_Pow2(k) == <<1>> \o MPow2(k)
B_Shl(a, k) == B_Mul(a, B_Pow2(k))
B_Shr(a, k) == B_FloorDiv(a, B_Pow2(k))
RECURSIVE B_ISqrtIn(_, _, _)
B_ISqrtIn(a, lo, hi) == \* largest r in [lo, hi) with r^2 <= a
  IF B_Cmp(B_Add(lo, <<1, 1>>), hi) >= 0 THEN lo
  ELSE LET m == B_Shr(B_Add(lo, hi), 1)
       IN IF B_Cmp(B_Mul(m, m), a) <= 0 THEN B_ISqrtIn(a, m, hi) ELSE B_ISqrtIn(a, lo, m)
B_ISqrt(a) == IF a[1] = 0 THEN <<0>> ELSE B_ISqrtIn(a, <<0>>, B_Pow2(15 * ((Len(a) - 1) \div 2 + 1)))
\* value of a small big integer as a TLC integer; saturates at +-(2^31 - 1)
B_ToInt(a) ==
  IF Len(a) = 1 THEN 0 ELSE IF Len(a) = 2 THEN a[1] * a[2]
  ELSE IF Len(a) = 3 THEN a[1] * (a[2] + Base * a[3])
  ELSE IF Len(a) = 4 /\ a[4] < 2 THEN a[1] * (a[2] + Base * a[3] + (Base * Base) * a[4])
  ELSE a[1] * 2147483647
B_BitLen(a) == IF a[1] = 0 THEN 0
               ELSE 15 * (Len(a) - 2) + (CHOOSE k \in 1..15 : Pow2Dig(k) > a[Len(a)] /\ 2 * a[Len(a)] >= Pow2Dig(k))

-----------------------------------------------------------------------------
(* the operators used by the specification (accelerated, see above) *)
BFromInt(n) == B_FromInt(n)
BAdd(a, b) == B_Add(a, b)
BNeg(a) == B_Neg(a)
BSub(a, b) == B_Sub(a, b)
BMul(a, b) == B_Mul(a, b)
BCmp(a, b) == B_Cmp(a, b)
BFloorDiv(a, b) == B_FloorDiv(a, b)
BShl(a, k) == B_Shl(a, k)
BShr(a, k) == B_Shr(a, k)
BISqrt(a) == B_ISqrt(a)
BToInt(a) == B_ToInt(a)
BBitLen(a) == B_BitLen(a)

BZero == <<0>>
BOne == <<1, 1>>
BPow2(k) == BShl(BOne, k)
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BMod(a, b) == BSub(a, BMul(BFloorDiv(a, b), b))
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b[1] = 0 THEN BAbs(a) ELSE BGcd(b, BMod(a, b))
=============================================================================
