-------------------------------- MODULE NTT ---------------------------------
(* Z_q[x]/(x^n+1) and its representation by the values at the n roots of     *)
(* x^n+1 in Z_q (C09).                                                       *)
EXTENDS Integers, Sequences, SequencesExt, Ring
CONSTANT q

IsPolyQ(f, n) == Len(f) = n /\ \A k \in 1..n : f[k] \in 0..(q - 1)
RECURSIVE PowQ(_, _)
PowQ(a, k) == IF k = 0 THEN 1 ELSE IF k % 2 = 1 THEN (a * PowQ((a * a) % q, k \div 2)) % q ELSE PowQ((a * a) % q, k \div 2)
\* rs lists the n distinct roots of x^n+1, in whatever order
IsRoots(rs, n) == /\ IsPolyQ(rs, n)
                  /\ \A k \in 1..n : PowQ(rs[k], n) = q - 1
                  /\ IsInjective(rs)
Monomial(k, c, n) == [i \in 1..n |-> IF i = k + 1 THEN c ELSE 0]
IsTransform(F, f, rs) == F = EvalAllQ(f, rs, q)
=============================================================================
