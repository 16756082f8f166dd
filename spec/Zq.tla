--------------------------------- MODULE Zq ---------------------------------
(* The field Z_q: what each operation of the implementation must return.     *)
EXTENDS Integers, Sequences, SequencesExt, Bin

CONSTANT q

Elem == 0..(q - 1)
Add(a, b) == (a + b) % q
Sub(a, b) == (a - b) % q
Neg(a) == (-a) % q
Mul(a, b) == (a * b) % q
IsInv(a, r) == IF a = 0 THEN r = 0 ELSE r \in Elem /\ Mul(a, r) = 1
IsDiv(a, b, r) == IF b = 0 THEN r = 0 ELSE r \in Elem /\ Mul(r, b) = a
Shl(a, w) == (a * 2^w) % q
Shr(a, w) == a \div 2^w
B2I(b) == IF b THEN 1 ELSE 0
Cmp(a, b) == B2I(a = b) + 2 * B2I(a # b) + 4 * B2I(a > b) + 8 * B2I(a >= b) + 16 * B2I(a < b) + 32 * B2I(a <= b)
\* square and multiply over the bits of the exponent, least significant first
Pow(a, bits) ==
  LET r == FoldLeft(LAMBDA acc, b : <<IF b = 1 THEN Mul(acc[1], acc[2]) ELSE acc[1], Mul(acc[2], acc[2])>>,
                    <<1, a>>, bits)
  IN r[1]

\* is r the required result of binary operation fn on (a, b)
BinOk(fn, a, b, r) ==
  CASE fn \in {"add", "addto"} -> r = Add(a, b)
    [] fn = "sub" -> r = Sub(a, b)
    [] fn \in {"mul", "multo"} -> r = Mul(a, b)
    [] fn = "div" -> IsDiv(a, b, r)
    [] fn = "cmp" -> r = Cmp(a, b)
    [] OTHER -> FALSE

\* rows lo..hi of the table of fn recorded in a file: the set of wrong entries
\* (at most one per row) ...
T_BadEntries(file, fn, lo, hi) ==
  { <<a, CHOOSE b \in Elem : ~BinOk(fn, a, b, ReadU16(file, a, q)[b + 1])>> :
      a \in { x \in lo..hi : \E row \in {ReadU16(file, x, q)} : \E b \in Elem : ~BinOk(fn, x, b, row[b + 1]) } }
\* ... accelerated
BadRows(file, fn, lo, hi, qq) == { x[1] : x \in T_BadEntries(file, fn, lo, hi) }
=============================================================================
