------------------------------- MODULE T_Fresh ------------------------------
(* C14: recorded generators - the device words each was seeded with, the     *)
(* seeds, the bytes handed out - and the signatures made with them.          *)
EXTENDS TraceBase, Fresh
VARIABLE st

SeedLen == 32
SaltLen == 40
MinWords == 8        \* 256 bits at 32 bits a word
Dev(e) == { e.dev[k] : k \in 1..Len(e.dev) }
\* dev is empty if the words did not come from an interface we stand in for
NewOk(e) == /\ Len(e.seed) = SeedLen
            /\ Cardinality(Dev(e)) = Len(e.dev)
            /\ e.dev = <<>> \/ Len(e.dev) >= MinWords
            /\ CanNew(st, e.seed, Dev(e))
NewStep == /\ IsEvent("new")
           /\ \E e \in {Ev} : NewOk(e) /\ st' = DoNew(st, e.seed, Dev(e))
\* a long read carries its length and digests of its pieces in place of the bytes
Size(e) == IF Has("len") THEN e.len ELSE Len(e.bytes)
\* every byte handed out is that of the seed's stream at the next position
ReadOk(e) == CanRead(st, e.g, e.from) /\ Len(e.bytes) = Len(e.ref) /\ e.bytes = e.ref
ReadStep == /\ IsEvent("read")
            /\ \E e \in {Ev} : Ok(ReadOk(e)) /\ st' = DoRead(st, e.g, Size(e))
\* the signature's salt is among the bytes read for it (the previous event)
SignedStep ==
  /\ IsEvent("signed")
  /\ \E e \in {Ev}, p \in {Trace[h].ev[i]} :
       /\ Ok(e.ok /\ Len(e.salt) = SaltLen /\ p.op = "read" /\ Window(p.bytes, e.salt) /\ CanSalt(st, e.salt))
       /\ st' = DoSalt(st, e.salt)
KeyStep == IsEvent("keyed") /\ Ok(Trace[h].ev[i].op = "read") /\ UNCHANGED st

\* How the seed depends on the device: diffs[k] are the bits of the seed that
\* change when one chosen bit of the device's words is flipped; by[j] are the
\* flips whose changes add up to bit j alone.  All 256 bits are reached, so the
\* words the seed is made of carry 256 bits into it (a seed stretched from a
\* single word reaches at most 32).
Sym(a, b) == (a \ b) \cup (b \ a)
Adds(diffs, ks) == FoldLeft(LAMBDA acc, k : Sym(acc, { diffs[k][x] : x \in 1..Len(diffs[k]) }), {}, ks)
InflOk(e) == /\ Len(e.by) = 8 * SeedLen
             /\ \A j \in 1..(8 * SeedLen) : Adds(e.diffs, e.by[j]) = {j - 1}
InflStep == IsEvent("influence") /\ Ok(\A e \in {Ev} : InflOk(e)) /\ UNCHANGED st

Next == NewStep \/ ReadStep \/ SignedStep \/ KeyStep \/ InflStep \/ (Finished /\ UNCHANGED st)
Spec == TraceInit /\ st = FreshInit /\ [][Next]_<<h, i, st>>
=============================================================================
