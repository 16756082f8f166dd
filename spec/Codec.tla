------------------------------- MODULE Codec --------------------------------
(* Byte formats of keys and signatures.                                      *)
(*  - keys: fixed-width fields packed least significant bit first;           *)
(*  - signature bodies: per coefficient a sign bit, W low bits (most         *)
(*    significant first), the high part in unary (zeros closed by a one),    *)
(*    packed most significant bit first and padded with zero bits.           *)
(* Decoders are stated from the format, not as inverses; that they accept    *)
(* exactly the images of the encoders is checked exhaustively on small       *)
(* formats by MC_Codec.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Pow2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768>>
P2(k) == Pow2[k + 1]
Lg(n) == CHOOSE k \in 0..10 : P2(k) = n
ValAbs(x) == IF x < 0 THEN -x ELSE x
Sum8(F(_)) == F(0) + 2*F(1) + 4*F(2) + 8*F(3) + 16*F(4) + 32*F(5) + 64*F(6) + 128*F(7)

\* ---- fields of width w, least significant bit first
FieldBit(v, w, b) == (v[(b \div w) + 1] \div P2(b % w)) % 2
Pack(v, w) == [j \in 1..((Len(v) * w) \div 8) |-> Sum8(LAMBDA t : FieldBit(v, w, 8 * (j - 1) + t))]
\* field k (0-based) of the bits of b[from..]: the bytes it straddles
Field(b, from, w, k) ==
  LET lo == k * w  j == from + (lo \div 8)  s == lo % 8
      At(x) == IF x <= Len(b) THEN b[x] ELSE 0
  IN ((At(j) + 256 * At(j + 1) + 65536 * At(j + 2)) \div P2(s)) % P2(w)
Fields(b, from, w, n) == [k \in 1..n |-> Field(b, from, w, k - 1)]

\* ---- two's complement of width w, without the minimal value
ToTC(x, w) == IF x < 0 THEN P2(w) + x ELSE x
OfTC(u, w) == IF u >= P2(w - 1) THEN u - P2(w) ELSE u
Forbidden(u, w) == u = P2(w - 1)
MapTC(v, w) == [k \in 1..Len(v) |-> ToTC(v[k], w)]
MapOfTC(v, w) == [k \in 1..Len(v) |-> OfTC(v[k], w)]

\* ---- public keys
PkWidth == 14
PkLen(n) == 1 + (n * PkWidth) \div 8
PkEnc(h) == <<Lg(Len(h))>> \o Pack(h, PkWidth)
PkFields(b, n) == Fields(b, 2, PkWidth, n)
PkValid(b, n, q) == /\ Len(b) = PkLen(n) /\ b[1] = Lg(n)
                    /\ \A v \in {PkFields(b, n)} : \A k \in 1..n : v[k] < q

\* ---- secret keys
FgWidth(n) == IF n = 512 THEN 6 ELSE 5
SkLen(n) == 1 + 2 * ((n * FgWidth(n)) \div 8) + n
SkHeader(n) == 16 * 5 + Lg(n)
SkG(n) == 2 + (n * FgWidth(n)) \div 8
SkF(n) == 2 + 2 * ((n * FgWidth(n)) \div 8)
SkEnc(f, g, F) == LET n == Len(f) w == FgWidth(n) IN
  <<SkHeader(n)>> \o Pack(MapTC(f, w), w) \o Pack(MapTC(g, w), w) \o MapTC(F, 8)
SkFieldsF(b, n) == Fields(b, 2, FgWidth(n), n)
SkFieldsG(b, n) == Fields(b, SkG(n), FgWidth(n), n)
SkFieldsC(b, n) == Fields(b, SkF(n), 8, n)
SkValid(b, n) == /\ Len(b) = SkLen(n) /\ b[1] = SkHeader(n)
                 /\ \A v \in {SkFieldsF(b, n), SkFieldsG(b, n)} : \A k \in 1..n : ~Forbidden(v[k], FgWidth(n))
                 /\ \A v \in {SkFieldsC(b, n)} : \A k \in 1..n : ~Forbidden(v[k], 8)

\* ---- signatures
SigLen(n) == IF n = 512 THEN 666 ELSE 1280
SigHeader(n) == 16 * 3 + Lg(n)
SaltLen == 40
BodyLen(n) == SigLen(n) - SaltLen - 1
Body(b) == SubSeq(b, SaltLen + 2, Len(b))
SaltOf(b) == SubSeq(b, 2, SaltLen + 1)

\* length in bits of the encoding of coefficient c with W low bits
\* (written so that the most negative 32-bit integer has a value)
High(c, W) == IF c >= 0 THEN c \div P2(W)
              ELSE ((-(c + 1)) \div P2(W)) + (IF (-(c + 1)) % P2(W) = P2(W) - 1 THEN 1 ELSE 0)
CoefLen(c, W) == 1 + W + High(c, W) + 1
\* total length, saturated just above `cap`
EncLen(s, W, cap) ==
  FoldLeft(LAMBDA acc, c : IF acc > cap \/ CoefLen(c, W) > cap THEN cap + 1 ELSE acc + CoefLen(c, W), 0, s)
Zeros(k) == [j \in 1..k |-> 0]
CoefBits(c, W) ==
  <<IF c < 0 THEN 1 ELSE 0>>
  \o [j \in 1..W |-> (ValAbs(c) \div P2(W - j)) % 2]
  \o Zeros(ValAbs(c) \div P2(W)) \o <<1>>
EncBits(s, W) == FoldLeft(LAMBDA acc, c : acc \o CoefBits(c, W), <<>>, s)
Pad(bits, nbits) == bits \o Zeros(nbits - Len(bits))
BytesMSB(bits) == [j \in 1..(Len(bits) \div 8) |-> LET o == 8 * (j - 1) IN
  Sum8(LAMBDA t : bits[o + 8 - t])]
BitsMSB(b) == [k \in 1..(8 * Len(b)) |-> (b[((k - 1) \div 8) + 1] \div P2(7 - ((k - 1) % 8))) % 2]
Fits(s, W, nbits) == EncLen(s, W, nbits) <= nbits
Comp(s, W, nbits) == BytesMSB(Pad(EncBits(s, W), nbits))

\* The decoder, an automaton over the bits.
\*  ph 0: expects a sign bit; 1..W: a low bit; W+1: unary part; "pad"; "bad"
DecInit(n) == [ph |-> IF n = 0 THEN "pad" ELSE "sign", neg |-> 0, low |-> 0, w |-> 0, k |-> 0, out |-> <<>>]
DecStep(st, bit, n, W) ==
  CASE st.ph = "bad" -> st
    [] st.ph = "pad" -> IF bit = 0 THEN st ELSE [st EXCEPT !.ph = "bad"]
    [] st.ph = "sign" -> [st EXCEPT !.ph = "low", !.neg = bit, !.low = 0, !.w = 0, !.k = 0]
    [] st.ph = "low" -> [st EXCEPT !.low = 2 * @ + bit, !.w = @ + 1, !.ph = IF st.w + 1 = W THEN "unary" ELSE "low"]
    [] st.ph = "unary" ->
         IF bit = 0 THEN [st EXCEPT !.k = @ + 1]
         ELSE LET a == st.low + st.k * P2(W) IN
              IF a = 0 /\ st.neg = 1 THEN [st EXCEPT !.ph = "bad"]
              ELSE [st EXCEPT !.out = Append(@, IF st.neg = 1 THEN -a ELSE a),
                              !.ph = IF Len(st.out) + 1 = n THEN "pad" ELSE "sign"]
DecRun(bits, n, W) == FoldLeft(LAMBDA st, bit : DecStep(st, bit, n, W), DecInit(n), bits)
DecOk(st) == st.ph = "pad"

SigRun(b, n) == DecRun(BitsMSB(Body(b)), n, 7)
SigValid(b, n) == Len(b) = SigLen(n) /\ b[1] = SigHeader(n) /\ DecOk(SigRun(b, n))
=============================================================================
