-------------------------------- MODULE Ring --------------------------------
(* Polynomials modulo x^n + 1, as sequences of n coefficients (index 1 is    *)
(* the constant term), over TLC integers, over Z_q and over big integers.    *)
EXTENDS Integers, Sequences, SequencesExt, BigInt

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* coefficient i (0-based) of f*g mod x^n+1 : sum of f_j g_(i-j), negated when wrapping
R_MulQ(f, g, q) ==
  LET n == Len(f)
  IN [i \in 1..n |->
       FoldLeftDomain(LAMBDA acc, j :
           IF j <= i THEN (acc + f[j] * g[i - j + 1]) % q
           ELSE (acc - f[j] * g[n + i - j + 1]) % q, 0, f)]
\* as above over the integers (the caller guarantees 32-bit results)
R_MulZ(f, g) ==
  LET n == Len(f)
  IN [i \in 1..n |->
       FoldLeftDomain(LAMBDA acc, j :
           IF j <= i THEN acc + f[j] * g[i - j + 1]
           ELSE acc - f[j] * g[n + i - j + 1], 0, f)]
R_MulB(f, g) ==
  LET n == Len(f)
  IN [i \in 1..n |->
       FoldLeftDomain(LAMBDA acc, j :
           IF j <= i THEN B_Add(acc, B_Mul(f[j], g[i - j + 1]))
           ELSE B_Sub(acc, B_Mul(f[j], g[n + i - j + 1])), <<0>>, f)]
\* evaluation of a polynomial over Z_q at a point (Horner)
R_EvalQ(f, x, q) ==
  LET n == Len(f) IN FoldLeftDomain(LAMBDA acc, j : (acc * x + f[n + 1 - j]) % q, 0, f)

RingMulQ(f, g, q) == R_MulQ(f, g, q)   \* accelerated
RingMulZ(f, g) == R_MulZ(f, g)         \* accelerated
RingMulB(f, g) == R_MulB(f, g)         \* accelerated
EvalAllQ(f, xs, q) == [i \in 1..Len(xs) |-> R_EvalQ(f, xs[i], q)] \* accelerated

RingAddB(f, g) == [i \in 1..Len(f) |-> BAdd(f[i], g[i])]
RingSubB(f, g) == [i \in 1..Len(f) |-> BSub(f[i], g[i])]
ToBigPoly(f) == [i \in 1..Len(f) |-> BFromInt(f[i])]
ConstB(c, n) == [i \in 1..n |-> IF i = 1 THEN c ELSE <<0>>]
Conj(f) == [i \in 1..Len(f) |-> IF i % 2 = 0 THEN BNeg(f[i]) ELSE f[i]]  \* f(-x)
Lift(f) == [i \in 1..(2 * Len(f)) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE <<0>>] \* f(x^2)
\* hermitian adjoint f*(x) = f(1/x)
AdjB(f) == LET n == Len(f) IN [i \in 1..n |-> IF i = 1 THEN f[1] ELSE BNeg(f[n + 2 - i])]
\* field norm to degree n/2: N(f)(x^2) = f(x) f(-x)
FieldNorm(f) == LET p == RingMulB(f, Conj(f))
                IN [i \in 1..(Len(f) \div 2) |-> p[2 * i - 1]]
RECURSIVE Resultant(_)
Resultant(f) == IF Len(f) = 1 THEN f[1] ELSE Resultant(FieldNorm(f))
=============================================================================
