----------------------------- MODULE MC_Verify ------------------------------
(* Verification on a toy ring Z_q[x]/(x^2+1), for every (h, c, s2): the      *)
(* verdict of the centred representative is the existence of a short pair,   *)
(* and no other representative is shorter.                                   *)
EXTENDS Scheme
CONSTANTS q, m, bmax
VARIABLES hh, c, s2
Sq(v) == v[1] * v[1] + v[2] * v[2]
Zq2 == { <<a, b>> : a \in 0..(q - 1), b \in 0..(q - 1) }
Sm == { <<a, b>> : a \in -m..m, b \in -m..m }
Init == hh \in Zq2 /\ c \in Zq2 /\ s2 \in Sm
Next == UNCHANGED <<hh, c, s2>>
Spec == Init /\ [][Next]_<<hh, c, s2>>
\* s2 * hh in Z[x]/(x^2 + 1)
Prod == << s2[1] * hh[1] - s2[2] * hh[2], s2[1] * hh[2] + s2[2] * hh[1] >>
Congruent(s1) == \A k \in 1..2 : (s1[k] + Prod[k] - c[k]) % q = 0
Wide == { <<a, b>> : a \in -q..q, b \in -q..q }
S1 == S1OfQ(c, s2, hh, q)
Solves == Congruent(S1)
Shortest == \A t \in Wide : Congruent(t) => Sq(S1) <= Sq(t)
Verdict == \A b \in 0..bmax : (Sq(S1) + Sq(s2) <= b) = (\E t \in Wide : Congruent(t) /\ Sq(t) + Sq(s2) <= b)
=============================================================================
