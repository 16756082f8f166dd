------------------------------- MODULE Solver -------------------------------
(* The tower method for f G - g F = q in Z[x]/(x^n+1), over TLC integers:    *)
(* down by field norms to the integers, Bezout there, up by lifting, with    *)
(* (F, G) reduced against (f, g) at each degree.                             *)
EXTENDS Integers, Sequences, SequencesExt, Ring, Util
ConjZ(f) == [i \in 1..Len(f) |-> IF i % 2 = 0 THEN -f[i] ELSE f[i]]
LiftZ(f) == [i \in 1..(2 * Len(f)) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE 0]
AdjZ(f) == LET n == Len(f) IN [i \in 1..n |-> IF i = 1 THEN f[1] ELSE -f[n + 2 - i]]
NormZ(f) == With(RingMulZ(f, ConjZ(f)), LAMBDA p : [i \in 1..(Len(f) \div 2) |-> p[2 * i - 1]])
AddZ(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SubZ(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
\* <<s, t, g>> with s a + t b = g >= 0
RECURSIVE Bezout(_, _)
Bezout(a, b) ==
  IF b = 0 THEN IF a < 0 THEN <<-1, 0, -a>> ELSE <<1, 0, a>>
  ELSE With(Bezout(b, a % (IF b < 0 THEN -b ELSE b)), LAMBDA r :
       LET k == (a - (a % (IF b < 0 THEN -b ELSE b))) \div b IN <<r[2], r[1] - k * r[2], r[3]>>)
\* nearest integer to a/b, b > 0; ties towards zero
Near(a, b) == IF a >= 0 THEN (2 * a + b - 1) \div (2 * b) ELSE -((-2 * a + b - 1) \div (2 * b))
\* inverse of a totally positive element by its conjugates: u with u d = N, N an integer
RECURSIVE Cofactor(_)
Cofactor(d) == IF Len(d) = 1 THEN <<<<1>>, d[1]>>
               ELSE With(Cofactor(NormZ(d)), LAMBDA r : <<RingMulZ(ConjZ(d), LiftZ(r[1])), r[2]>>)
\* the nearest-plane multiplier of (F, G) against (f, g)
Mult(f, g, F, G) ==
  With(AddZ(RingMulZ(f, AdjZ(f)), RingMulZ(g, AdjZ(g))), LAMBDA d :
  With(Cofactor(d), LAMBDA u :
  With(RingMulZ(AddZ(RingMulZ(F, AdjZ(f)), RingMulZ(G, AdjZ(g))), u[1]), LAMBDA a :
    [i \in 1..Len(f) |-> Near(a[i], u[2])])))
IsZero(k) == \A i \in 1..Len(k) : k[i] = 0
RECURSIVE ReduceZ(_, _, _, _)
ReduceZ(f, g, F, G) ==
  With(Mult(f, g, F, G), LAMBDA k :
    IF IsZero(k) THEN <<F, G>> ELSE ReduceZ(f, g, SubZ(F, RingMulZ(f, k)), SubZ(G, RingMulZ(g, k))))
\* <<found, F, G>>
RECURSIVE SolveZ(_, _, _)
SolveZ(f, g, q) ==
  IF Len(f) = 1
  THEN With(Bezout(f[1], g[1]), LAMBDA r : IF r[3] = 1 THEN <<TRUE, <<-q * r[2]>>, <<q * r[1]>>>> ELSE <<FALSE, <<>>, <<>>>>)
  ELSE With(SolveZ(NormZ(f), NormZ(g), q), LAMBDA w :
       IF ~w[1] THEN w
       ELSE With(ReduceZ(f, g, RingMulZ(LiftZ(w[2]), ConjZ(g)), RingMulZ(LiftZ(w[3]), ConjZ(f))), LAMBDA z : <<TRUE, z[1], z[2]>>))
EqnZ(f, g, F, G) == SubZ(RingMulZ(f, G), RingMulZ(g, F))
ScalarZ(q, n) == [i \in 1..n |-> IF i = 1 THEN q ELSE 0]
=============================================================================
