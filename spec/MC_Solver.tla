----------------------------- MODULE MC_Solver ------------------------------
(* The tower method on every pair of small polynomials of degree n: it finds *)
(* a reduced solution exactly where the resultants are coprime.              *)
EXTENDS Solver, NTRU, TLC
CONSTANTS n, m, q
VARIABLES f, g
Box(k) == [1..n -> -k..k]
Init == f \in Box(m) /\ g \in Box(m) /\ ~(IsZero(f) /\ IsZero(g))
Next == UNCHANGED <<f, g>>
Spec == Init /\ [][Next]_<<f, g>>
R == SolveZ(f, g, q)
Exact == With(R, LAMBDA r : r[1] => EqnZ(f, g, r[2], r[3]) = ScalarZ(q, n) /\ IsZero(Mult(f, g, r[2], r[3])))
\* the criterion of the trace specifications
Criterion == With(R, LAMBDA r : r[1] = Solvable(ToBigPoly(f), ToBigPoly(g))
                              /\ (r[1] => IsSolution(ToBigPoly(f), ToBigPoly(g), ToBigPoly(r[2]), ToBigPoly(r[3]), q)))
\* a reduced pair is no longer than any of its neighbours' translates by a unit
Len2(p) == SumSeq([k \in 1..Len(p) |-> p[k] * p[k]])
Units == { [i \in 1..n |-> IF i = k THEN s ELSE 0] : k \in 1..n, s \in {1, -1} }
Shortest == With(R, LAMBDA r : r[1] => \A u \in Units :
  Len2(r[2]) + Len2(r[3]) <= Len2(SubZ(r[2], RingMulZ(f, u))) + Len2(SubZ(r[3], RingMulZ(g, u))))
=============================================================================
