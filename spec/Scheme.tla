------------------------------- MODULE Scheme -------------------------------
(* Signing and verification.                                                 *)
EXTENDS Lattice, Codec, Hash

Modulus == 12289
BoundSq(n) == IF n = 512 THEN 34034726 ELSE 70265242
Bound(n) == BFromInt(BoundSq(n))
SqSum(p) == FoldLeft(LAMBDA acc, x : BAdd(acc, BMul(BFromInt(x), BFromInt(x))), <<0>>, p)
NormSq(a, b) == BAdd(SqSum(a), SqSum(b))
CentreQ(x, q) == IF x > q \div 2 THEN x - q ELSE x
Residue(x) == x % Modulus

\* ---- verification: of the public key's bytes, the signature's bytes and
\* the words the XOF hands out for salt and message
S1OfQ(c, s2, h, q) == With(RingMulQ([k \in 1..Len(s2) |-> s2[k] % q], h, q), LAMBDA p :
                        [k \in 1..Len(c) |-> CentreQ((c[k] - p[k]) % q, q)])
S1Of(c, s2, h) == S1OfQ(c, s2, h, Modulus)
VerNorm(pk, sig, c) ==
  With(SigRun(sig, Len(c)).out, LAMBDA s2 : With(S1Of(c, s2, PkFields(pk, Len(c))), LAMBDA s1 : NormSq(s1, s2)))
WellFormed(pk, sig, n) == PkValid(pk, n, Modulus) /\ SigValid(sig, n)
Accepts(pk, sig, c) == WellFormed(pk, sig, Len(c)) /\ BLe(VerNorm(pk, sig, c), Bound(Len(c)))

\* ---- signing: target (c, 0) B^-1 = (-c F / q, c f / q)
OverQ(v) == [k \in 1..Len(v) |-> <<BFloorDiv(v[k][1], BFromInt(Modulus)), BFloorDiv(v[k][2], BFromInt(Modulus))>>]
TargetOf(K, c, tab) ==
  With(ValuesOf(c, tab), LAMBDA vc :
  With(OverQ(VMul(vc, K.vF)), LAMBDA a : With(OverQ(VMul(vc, K.vf)), LAMBDA b :
    <<[k \in 1..Len(a) |-> <<BNeg(a[k][1]), BNeg(a[k][2])>>], b>>)))
IntsOf(v, tab) == With(IFFTx(v, tab), LAMBDA p : [k \in 1..Len(p) |-> BToInt(FxRound(p[k][1]))])
\* (c, 0) - z B
ShortPair(K, c, z0, z1) ==
  With(RingMulZ(z0, K.g), LAMBDA a : With(RingMulZ(z1, K.G), LAMBDA b :
  With(RingMulZ(z0, K.f), LAMBDA d : With(RingMulZ(z1, K.F), LAMBDA e :
    <<[k \in 1..Len(c) |-> c[k] - a[k] - b[k]], [k \in 1..Len(c) |-> d[k] + e[k]]>>))))
BodyBits(n) == 8 * BodyLen(n)
\* what becomes of a candidate; the norm is compared in floating point, so a
\* norm equal to the bound is open
Judge(s1, s2) ==
  With(BCmp(NormSq(s1, s2), Bound(Len(s1))), LAMBDA o :
    IF o = 1 THEN "long" ELSE IF o = 0 THEN "amb" ELSE IF Fits(s2, 7, BodyBits(Len(s2))) THEN "ok" ELSE "nofit")
\* draw candidates until one is good: <<status, bytes used, s2, fates of the rejected ones>>
RECURSIVE SignFrom(_, _, _, _, _, _, _)
SignFrom(K, c, t, b, at, fates, tab) ==
  With(Samp(K.tree, t[1], t[2], b, at, tab), LAMBDA y :
    IF y[1] # "ok" THEN <<y[1], y[2], <<>>, fates>>
    ELSE With(ShortPair(K, c, IntsOf(y[3], tab), IntsOf(y[4], tab)), LAMBDA s :
         With(Judge(s[1], s[2]), LAMBDA v :
           CASE v = "ok" -> <<"ok", y[2], s[2], fates>>
             [] v = "amb" -> <<"amb", y[2], s[2], fates>>
             [] OTHER -> SignFrom(K, c, t, b, y[2], Append(fates, v), tab))))
SigBytes(salt, s2) == <<SigHeader(Len(s2))>> \o salt \o Comp(s2, 7, BodyBits(Len(s2)))
=============================================================================
