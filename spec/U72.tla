-------------------------------- MODULE U72 ---------------------------------
(* Unsigned integers of 72, 64, 126 and 128 bits, as big integers.           *)
EXTENDS Integers, Sequences, SequencesExt, BigInt

BMod2(a, k) == BSub(a, BShl(BShr(a, k), k))            \* a mod 2^k, in [0, 2^k)
U72Add(a, b) == BMod2(BAdd(a, b), 72)
U72Sub(a, b) == BMod2(BSub(a, b), 72)
U72Neg(a) == BMod2(BNeg(a), 72)
U72Cmp(a, b) == CASE BCmp(a, b) > 0 -> 1 [] BCmp(a, b) < 0 -> 2 [] OTHER -> 0   \* ">" + 2 "<"
\* value of a byte string, most significant byte first
BytesBE(s) == FoldLeft(LAMBDA acc, x : BAdd(BShl(acc, 8), BFromInt(x)), <<0>>, s)
BytesLE(s) == BytesBE(Reverse(s))
IsByteSeq(s, n) == Len(s) = n /\ \A k \in 1..n : s[k] \in 0..255
FullMul(a, b) == BMul(a, b)
Top63(a) == BShr(a, 63)                                \* of a 126-bit value
=============================================================================
