------------------------------- MODULE MC_Hash ------------------------------
(* The hashing loop on a small field, for every XOF output: words arrive in  *)
(* blocks, the loop may stop in the middle of one.                           *)
EXTENDS Hash, TLC, FiniteSets
CONSTANTS n, q, base, block, maxw
VARIABLES words, out
Init == words = <<>> /\ out = HashInit
ReadWord == /\ Len(words) < maxw
            /\ Len(out) < n \/ Len(words) % block # 0   \* whole blocks are read
            /\ \E w \in 0..(base - 1) : words' = Append(words, w) /\ out' = HashStep(out, w, n, q, base)
Next == ReadWord
Spec == Init /\ [][Next]_<<words, out>>
InRange == Len(out) <= n /\ \A j \in 1..Len(out) : out[j] \in 0..(q - 1)
IsFold == out = HashWords(words, n, q, base)
Declarative == Len(out) = n => out = HashPoly(words, n, q, base)
Partial == Len(out) < n => Len(out) = Len(HashKept(words, q, base))
\* no bias: each residue has the same number of accepted words
Unbiased == \A r \in 0..(q - 1) : Cardinality({ w \in 0..(base - 1) : HashWords(<<w>>, 1, q, base) = <<r>> }) = base \div q
=============================================================================
