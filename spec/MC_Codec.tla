------------------------------ MODULE MC_Codec ------------------------------
(* The codecs on small formats, exhaustively.                                *)
(*  mode "sig":  every bit string up to length L, read bit by bit by the     *)
(*     decoder automaton with W low bits and n coefficients: it accepts iff  *)
(*     the string is the padded encoding of the polynomial it returns, and   *)
(*     every polynomial whose encoding fits is returned for its encoding.    *)
(*  mode "fld":  every vector of fields / byte string.                       *)
EXTENDS Codec, TLC

CONSTANTS n, W, L, MaxC

VARIABLES bits, st, mode

Init == bits = <<>> /\ st = DecInit(n) /\ mode \in {"sig", "tc", "fld"}
ReadBit == /\ mode = "sig" /\ Len(bits) < L
           /\ \E b \in {0, 1} : bits' = Append(bits, b) /\ st' = DecStep(st, b, n, W)
           /\ UNCHANGED mode
Next == ReadBit
Spec == Init /\ [][Next]_<<bits, st, mode>>

\* the automaton state is a function of the bits read
IsRun == st = DecRun(bits, n, W)
\* accepted => canonical encoding of what is returned
Sound == DecOk(st) => /\ Len(st.out) = n /\ Fits(st.out, W, Len(bits))
                      /\ Pad(EncBits(st.out, W), Len(bits)) = bits
\* rejected => the encoding of no polynomial
Polys == [1..n -> -MaxC..MaxC]
Complete == Len(bits) = L /\ ~DecOk(st) =>
              ~\E s \in Polys : Fits(s, W, L) /\ Pad(EncBits(s, W), L) = bits
\* once bad, always bad: no extension of a rejected prefix is accepted
BadIsFinal == [][st.ph = "bad" => st'.ph = "bad"]_<<bits, st, mode>>
\* length is what the encoding has
LenOk == mode = "fld" => \A s \in Polys : EncLen(s, W, 1000) = Len(EncBits(s, W))
\* two's complement without minimum: bijection between [-m, m] and the allowed fields
TcOk == mode = "tc" => \A w \in 2..8 :
          LET m == P2(w - 1) - 1 IN
          /\ \A x \in -m..m : ToTC(x, w) \in 0..(P2(w) - 1) /\ ~Forbidden(ToTC(x, w), w) /\ OfTC(ToTC(x, w), w) = x
          /\ \A u \in 0..(P2(w) - 1) : Forbidden(u, w) \/ (OfTC(u, w) \in -m..m /\ ToTC(OfTC(u, w), w) = u)
\* packing: Fields inverts Pack on all vectors of 8 fields of width 1..2 and of
\* sparse vectors of the real widths, and Pack inverts Fields on byte strings
FldOk == mode = "fld" =>
  /\ \A w \in 1..2 : \A v \in [1..(IF w = 1 THEN 8 ELSE 4) -> 0..(P2(w) - 1)] : Fields(Pack(v, w), 1, w, Len(v)) = v
  /\ \A w \in {5, 6, 8, 14} : \A p, r \in 1..8 : \A x \in {0, 1, P2(w - 1), P2(w) - 1, P2(w) - 2} :
       LET v == [k \in 1..8 |-> IF k = p THEN x ELSE IF k = r THEN P2(w) - 1 - x ELSE 0] IN Fields(Pack(v, w), 1, w, 8) = v
  /\ \A w \in {5, 6, 14} : \A p \in 1..w : \A x \in 0..255 :
       LET b == [k \in 1..w |-> IF k = p THEN x ELSE 165] IN Pack(Fields(b, 1, w, 8), w) = b
=============================================================================
