-------------------------------- MODULE T_FF --------------------------------
(* C08: the recorded operation tables of the implementation's field are      *)
(* exactly those of Z_q.                                                     *)
EXTENDS TraceBase, Zq

Full == IOEnv.FULL = "1"  \* TLA+ definition on every row, not only on samples

Rows == IF Full THEN Ev.lo..Ev.hi ELSE {x \in Ev.lo..Ev.hi : x % 769 = 0 \/ x < 3 \/ x = q - 1}
TableOk == /\ BadRows(Ev.file, Ev.fn, Ev.lo, Ev.hi, q) = {}
           /\ \A a \in Rows : \A row \in {ReadU16(Ev.file, a, q)}, fn \in {Ev.fn} :
                \A b \in Elem : BinOk(fn, a, b, row[b + 1])
UnaryOk == \A r \in {Ev.r}, fn \in {Ev.fn} :
             \/ fn = "neg" /\ Len(r) = q /\ \A a \in Elem : r[a + 1] = Neg(a)
             \/ fn = "inv" /\ Len(r) = q /\ \A a \in Elem : IsInv(a, r[a + 1])
             \/ fn = "make" /\ Len(r) = 65536 /\ \A a \in 0..65535 : r[a + 1] = a % q
PowerOk == \A r \in {Ev.r}, a \in {Ev.a} :
             Len(r) = Len(a) /\ \A k \in 1..Len(a) : r[k] = Pow(a[k], Ev.bits)

Table == IsEvent("table") /\ Ok(TableOk)
Unary == IsEvent("unary") /\ Ok(UnaryOk)
Const == IsEvent("const") /\ Ev.zero = 0 /\ Ev.one = 1
Power == IsEvent("pow") /\ Ok(PowerOk)
\* shifts of the value, as long as it keeps within 16 bits
ShiftOk == \A r \in {Ev.r} : Len(r) = q /\ \A a \in Elem : IF Ev.dir = "r" THEN r[a + 1] = Shr(a, Ev.w)
                                                       ELSE r[a + 1] \in Elem /\ (a * 2^Ev.w < 65536 => r[a + 1] = Shl(a, Ev.w))
Shift == IsEvent("shift") /\ Ok(ShiftOk)
Text == IsEvent("text") /\ Ev.bad = <<>>
\* nothing beyond the field, everything in it, no part of it preferred
RandomOk ==
  \A r \in {Ev.r} :
    /\ Len(r) = q + 1 /\ r[q + 1] = 0
    /\ \A a \in Elem : 4 * r[a + 1] \in (Ev.draws \div q)..7 * (Ev.draws \div q)  \* 130 on average, deviation 11
    /\ \A s \in {[k \in 0..15 |-> FoldLeft(LAMBDA acc, x : acc + x, 0, SubSeq(r, k * 768 + 1, (k + 1) * 768))]}, want \in {(Ev.draws \div q) * 768} :
         \A k \in 0..15 : s[k] * 25 >= want * 24 /\ s[k] * 25 <= want * 26
Random == IsEvent("random") /\ Ok(RandomOk)

Next == Table \/ Unary \/ Const \/ Power \/ Shift \/ Text \/ Random \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
