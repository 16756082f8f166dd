-------------------------------- MODULE CFFT --------------------------------
(* Real polynomials modulo x^n+1 (n a power of two up to 1024) and their     *)
(* values at the n complex roots of x^n+1, in fixed point (module Fx).       *)
(*                                                                           *)
(* Root k (0-based) of degree n is e^(i pi (2k+1)/n).  A vector of values is *)
(* a sequence V with V[k+1] the value at root k ("natural order").  The      *)
(* implementation keeps its own order; it is observed, not assumed: order    *)
(* lay of degree n lists, for each position, the index of its root.          *)
EXTENDS Integers, Sequences, SequencesExt, Fx

\* e^(i pi / 2^j), j = 0..10, by half angles from e^(i pi) = -1, e^(i pi/2) = i
HalfStep(p) == CHOOSE r \in { <<c, FxDiv(p[2], BShl(c, 1))>> : c \in {FxSqrt(BShr(BAdd(FxInt(1), p[1]), 1))} } : TRUE
HalfTurns == FoldLeft(LAMBDA acc, j : Append(acc, IF j = 0 THEN <<FxInt(-1), <<0>>>>
                                                  ELSE IF j = 1 THEN <<<<0>>, FxInt(1)>> ELSE HalfStep(acc[j])),
                      <<>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)
\* e^(i pi k/1024), k in 0..2047: product over the bits of k
Tab == FoldLeft(LAMBDA acc, b : acc \o [i \in 1..Len(acc) |-> CMul(acc[i], HalfTurns[11 - b])],
                <<COne>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)
Root(n, k) == Tab[(((2 * k + 1) * (1024 \div n)) % 2048) + 1]

Evens(f) == [i \in 1..(Len(f) \div 2) |-> f[2 * i - 1]]
Odds(f) == [i \in 1..(Len(f) \div 2) |-> f[2 * i]]

\* definition: value of f at each root
V_Eval(f, z) == LET n == Len(f) IN FoldLeftDomain(LAMBDA acc, j : CAdd(CMul(acc, z), f[n + 1 - j]), CZero, f)
V_FFT(f) == [k \in 1..Len(f) |-> V_Eval(f, Root(Len(f), k - 1))]
\* recursive forms (accelerated); MC_Fx compares them to the definition
RECURSIVE R_FFT(_, _)
R_FFT(f, tab) ==
  LET n == Len(f) IN
  IF n = 1 THEN f
  ELSE CHOOSE v \in { [k \in 1..n |-> CAdd(e[((k - 1) % (n \div 2)) + 1],
                                          CMul(tab[(((2 * k - 1) * (1024 \div n)) % 2048) + 1], o[((k - 1) % (n \div 2)) + 1]))]
                      : e \in {R_FFT(Evens(f), tab)}, o \in {R_FFT(Odds(f), tab)} } : TRUE
FFTx(f, tab) == R_FFT(f, tab)
\* even and odd part of the polynomial with values v
S_Even(v) == [k \in 1..(Len(v) \div 2) |-> CHalf(CAdd(v[k], v[k + Len(v) \div 2]))]
S_Odd(v, tab) == [k \in 1..(Len(v) \div 2) |->
   CMul(CHalf(CSub(v[k], v[k + Len(v) \div 2])), CConj(tab[(((2 * k - 1) * (1024 \div Len(v))) % 2048) + 1]))]
SplitE(v) == S_Even(v)
SplitO(v, tab) == S_Odd(v, tab)
S_Merge(e, o, tab) ==
  LET n == 2 * Len(e)
  IN [k \in 1..n |-> CAdd(e[((k - 1) % (n \div 2)) + 1],
                          CMul(tab[(((2 * k - 1) * (1024 \div n)) % 2048) + 1], o[((k - 1) % (n \div 2)) + 1]))]
MergeEO(e, o, tab) == S_Merge(e, o, tab)
RECURSIVE R_IFFT(_, _)
R_IFFT(v, tab) ==
  LET n == Len(v) IN
  IF n = 1 THEN v
  ELSE CHOOSE f \in { [j \in 1..n |-> IF j % 2 = 1 THEN e[(j + 1) \div 2] ELSE o[j \div 2]]
                      : e \in {R_IFFT(S_Even(v), tab)}, o \in {R_IFFT(S_Odd(v, tab), tab)} } : TRUE
IFFTx(v, tab) == R_IFFT(v, tab)

\* element-wise (accelerated)
V_Add(a, b) == [i \in 1..Len(a) |-> C_Add(a[i], b[i])]
V_Sub(a, b) == [i \in 1..Len(a) |-> C_Sub(a[i], b[i])]
V_Mul(a, b) == [i \in 1..Len(a) |-> C_Mul(a[i], b[i])]
V_Div(a, b) == [i \in 1..Len(a) |-> C_Div(a[i], b[i])]
V_Conj(a) == [i \in 1..Len(a) |-> C_Conj(a[i])]
VAdd(a, b) == V_Add(a, b)
VSub(a, b) == V_Sub(a, b)
VMul(a, b) == V_Mul(a, b)
VDiv(a, b) == V_Div(a, b)
VConj(a) == V_Conj(a)
VNeg(a) == [i \in 1..Len(a) |-> <<BNeg(a[i][1]), BNeg(a[i][2])>>]

\* sum of |a_i| (1-norm with max(|re|,|im|) <= |z| <= |re|+|im|: use the latter)
C_Abs1(z) == BAdd(BAbs(z[1]), BAbs(z[2]))
V_Abs1(a) == FoldLeft(LAMBDA acc, z : BAdd(acc, C_Abs1(z)), <<0>>, a)
VAbs1(a) == V_Abs1(a)
\* all entries within tol (same for all / one per entry)
V_Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CNear(a[i], b[i], tol)
VNear(a, b, tol) == V_Near(a, b, tol)

IntPolyC(f) == [i \in 1..Len(f) |-> CReal(FxInt(f[i]))]
ToOrder(v, lay) == [i \in 1..Len(v) |-> v[lay[i] + 1]]
FromOrder(w, lay) == CHOOSE v \in { [k \in 1..Len(w) |-> w[p[k]]] :
                         p \in { [k \in 1..Len(w) |-> CHOOSE i \in 1..Len(w) : lay[i] = k - 1] } } : TRUE
\* |x|_2^2 of the polynomial with values v: (1/n) sum |v_k|^2
V_Norm2(v) == BFloorDiv(FoldLeft(LAMBDA acc, z : BAdd(acc, BShr(BAdd(BMul(z[1], z[1]), BMul(z[2], z[2])), FS)), <<0>>, v), BFromInt(Len(v)))
VNorm2(v) == V_Norm2(v)
=============================================================================
