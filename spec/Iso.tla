-------------------------------- MODULE Iso ---------------------------------
(* Calls as functions: the result of a call is determined by the operation,  *)
(* its inputs and the bytes of its own generator.  `memo` is the part of     *)
(* that function seen so far.                                                *)
EXTENDS Sequences, FiniteSets
Agrees(memo, k, v) == k \in DOMAIN memo => memo[k] = v
Learn(memo, k, v) == [x \in DOMAIN memo \cup {k} |-> IF x = k THEN v ELSE memo[x]]
Merge(memo, pairs) == [x \in DOMAIN memo \cup { p[1] : p \in pairs } |->
                         IF x \in DOMAIN memo THEN memo[x] ELSE (CHOOSE p \in pairs : p[1] = x)[2]]
Consistent(memo, pairs) == /\ \A p \in pairs : Agrees(memo, p[1], p[2])
                           /\ \A p, r \in pairs : p[1] = r[1] => p[2] = r[2]
=============================================================================
