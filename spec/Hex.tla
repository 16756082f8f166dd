--------------------------------- MODULE Hex --------------------------------
(* The text form of byte strings: two digits per byte, most significant      *)
(* first.  A digit is its value together with its case; the alphabet of the  *)
(* implementation is given by CharOf.                                        *)
EXTENDS Integers, Sequences

\* digits of byte b in base `base`
Hi(b, base) == b \div base
Lo(b, base) == b % base
EncodeHex(bytes, base) == [k \in 1..(2 * Len(bytes)) |->
                            IF k % 2 = 1 THEN Hi(bytes[(k + 1) \div 2], base) ELSE Lo(bytes[k \div 2], base)]
\* a digit left over at the end is ignored
DecodeHex(digits, base) == [k \in 1..(Len(digits) \div 2) |-> digits[2 * k - 1] * base + digits[2 * k]]

\* character codes: 0-9, a-f; A-F are read as well
CharOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
IsDigit(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
DigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
HexText(bytes) == LET d == EncodeHex(bytes, 16) IN [k \in 1..Len(d) |-> CharOf(d[k])]
HexBytes(text) == DecodeHex([k \in 1..Len(text) |-> DigitOf(text[k])], 16)
=============================================================================
