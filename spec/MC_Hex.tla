-------------------------------- MODULE MC_Hex ------------------------------
(* Writing and reading the text form, digit by digit, for every byte string  *)
(* up to a length, and every text.                                           *)
EXTENDS Hex, Util, TLC, IOUtils, FiniteSets
CONSTANTS base, maxlen
Fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv["FAULT"] ELSE "none"
VARIABLES bytes,  \* written so far
          text,   \* its digits
          high,   \* digit read that waits for its partner, or -1
          pos,    \* digits read
          back    \* bytes read
vars == <<bytes, text, high, pos, back>>
Init == bytes = <<>> /\ text = <<>> /\ high = -1 /\ pos = 0 /\ back = <<>>
Digits(b) == IF Fault = "strip" /\ b < base THEN <<b>>
             ELSE IF Fault = "swap" THEN <<Lo(b, base), Hi(b, base)>> ELSE <<Hi(b, base), Lo(b, base)>>
Write == /\ Len(bytes) < maxlen /\ pos = 0
         /\ \E b \in 0..(base * base - 1) : bytes' = Append(bytes, b) /\ text' = text \o Digits(b)
         /\ UNCHANGED <<high, pos, back>>
Read == /\ pos < Len(text) /\ pos' = pos + 1
        /\ IF high = -1 THEN high' = text[pos + 1] /\ back' = back
           ELSE high' = -1 /\ back' = Append(back, high * base + text[pos + 1])
        /\ UNCHANGED <<bytes, text>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Functional == text = EncodeHex(bytes, base) /\ back = DecodeHex(SubSeq(text, 1, pos), base)
RoundTrip == pos = Len(text) => back = bytes
Size == Len(text) = 2 * Len(bytes)
Prefix == \A k \in 1..Len(back) : back[k] = bytes[k]
\* each text of even length is that of exactly one byte string
Texts == UNION { [1..k -> 0..(base - 1)] : k \in 0..(2 * maxlen) }
ASSUME \A t \in Texts : IF Len(t) % 2 = 0 THEN EncodeHex(DecodeHex(t, base), base) = t
                        ELSE DecodeHex(t, base) = DecodeHex(SubSeq(t, 1, Len(t) - 1), base)
\* the characters are a bijection between digits and lower-case characters
ASSUME { CharOf(d) : d \in 0..15 } = (48..57) \cup (97..102) /\ \A d \in 0..15 : DigitOf(CharOf(d)) = d
ASSUME \A c \in 0..255 : IsDigit(c) => DigitOf(c) \in 0..15
=============================================================================
