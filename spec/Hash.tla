-------------------------------- MODULE Hash --------------------------------
(* Message hashing as a state machine over the words the XOF hands out: a    *)
(* word >= k*q is discarded, any other is kept modulo q, until n are kept.   *)
EXTENDS Integers, Sequences, SequencesExt

HashInit == <<>>
HashKq(q, base) == (base \div q) * q
HashStep(out, w, n, q, base) ==
  IF Len(out) = n \/ w >= HashKq(q, base) THEN out ELSE Append(out, w % q)
HashWords(words, n, q, base) == FoldLeft(LAMBDA out, w : HashStep(out, w, n, q, base), HashInit, words)
\* declarative form
HashKept(words, q, base) == SelectSeq(words, LAMBDA w : w < HashKq(q, base))
HashPoly(words, n, q, base) == LET kept == HashKept(words, q, base) IN [j \in 1..n |-> kept[j] % q]
=============================================================================
