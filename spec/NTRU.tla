-------------------------------- MODULE NTRU --------------------------------
(* The NTRU equation f G - g F = q in Z[x]/(x^n+1), over big integers.       *)
EXTENDS Integers, Sequences, SequencesExt, Ring, CFFT, Util

NtruLhs(f, g, F, G) == RingSubB(RingMulB(f, G), RingMulB(g, F))
IsSolution(f, g, F, G, q) == NtruLhs(f, g, F, G) = ConstB(BFromInt(q), Len(f))
\* a solution exists iff the resultants with x^n + 1 are coprime
Solvable(f, g) == BGcd(Resultant(f), Resultant(g)) = BOne

\* (F, G) reduced against (f, g): the nearest-plane quotient
\*   k = (F f* + G g*) / (f f* + g g*)
\* rounds to zero, up to the precision of the implementation
FxPoly(p) == [j \in 1..Len(p) |-> CReal(BShl(p[j], FS))]
Quotient(f, g, F, G, tab) ==
  With(FFTx(FxPoly(f), tab), LAMBDA a : With(FFTx(FxPoly(g), tab), LAMBDA b :
  With(FFTx(FxPoly(F), tab), LAMBDA c : With(FFTx(FxPoly(G), tab), LAMBDA d :
    IFFTx(VDiv(VAdd(VMul(c, VConj(a)), VMul(d, VConj(b))), VAdd(VMul(a, VConj(a)), VMul(b, VConj(b)))), tab)))))
KMax(f, g, F, G, tab) == FoldLeft(LAMBDA m, z : BMax(m, BAbs(z[1])), <<0>>, Quotient(f, g, F, G, tab))
BitSize(p) == FoldLeft(LAMBDA m, c : LET l == BBitLen(c) IN IF l > m THEN l ELSE m, 0, p)
MaxBits(a, b) == LET x == BitSize(a) y == BitSize(b) IN IF x > y THEN x ELSE y
HalfPlus(eps) == BAdd(BPow2(FS - 1), FxEps(eps))
\* The reduction works on the leading 53 bits of (F, G) in steps of eight bits:
\* it goes down to the last unit while (f, g) leave room below those bits.
Small(f, g) == MaxBits(f, g) <= 32
\* In double precision a value a at a root is known to within 2^-52 of the sum L of the
\* coefficients' magnitudes: what cancels to less than L 2^-38 is hardly known.  And (F, G)
\* has a part of size q/|a| there that is none of (f, g): it has to drop out of the quotient,
\* and leaves some q L 2^-52 / |a|^3, which is far below a unit if |a|^3 >= L 2^-25.
Norm1(p) == FoldLeft(LAMBDA s, c : BAdd(s, BAbs(c)), <<0>>, p)
Conditioned(f, g, tab) ==
  With(FFTx(FxPoly(f), tab), LAMBDA a : With(FFTx(FxPoly(g), tab), LAMBDA b :
  With(VAdd(VMul(a, VConj(a)), VMul(b, VConj(b))), LAMBDA den :
  With(BAdd(Norm1(f), Norm1(g)), LAMBDA l :
    With(BMul(l, l), LAMBDA l2 : \A k \in 1..Len(den) :
      /\ BLe(l2, BShl(den[k][1], 76 - FS))
      /\ BLe(BShl(l2, 3 * FS - 50), BMul(den[k][1], BMul(den[k][1], den[k][1]))))))))
IsReduced(f, g, F, G, tab) == (Small(f, g) /\ Conditioned(f, g, tab)) => BLe(KMax(f, g, F, G, tab), HalfPlus(10))
=============================================================================
