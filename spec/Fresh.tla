------------------------------- MODULE Fresh --------------------------------
(* Generators, what they are seeded with and what becomes of the bytes they  *)
(* hand out.  A generator is seeded with words newly drawn from the device;  *)
(* it hands out the stream of its seed from the front, each position once;   *)
(* a signature's salt is SaltSize bytes handed out within that signature.    *)
EXTENDS Integers, Sequences, FiniteSets

FreshInit == [dev |-> {}, seeds |-> {}, pos |-> <<>>, salts |-> {}]
\* generators are numbered in the order of their creation
Known(st, g) == g \in 1..Len(st.pos)
CanNew(st, seed, words) == seed \notin st.seeds /\ words \cap st.dev = {}
DoNew(st, seed, words) == [st EXCEPT !.dev = @ \cup words, !.seeds = @ \cup {seed}, !.pos = Append(@, 0)]
\* positions are counted modulo 2^30
Wrap == 1073741824
CanRead(st, g, from) == Known(st, g) /\ from = st.pos[g]
DoRead(st, g, n) == [st EXCEPT !.pos[g] = (@ + n) % Wrap]
CanSalt(st, salt) == salt \notin st.salts
DoSalt(st, salt) == [st EXCEPT !.salts = @ \cup {salt}]
\* the salt is a run of the bytes read
Window(b, w) == \E k \in 0..(Len(b) - Len(w)) : b[k + 1] = w[1] /\ SubSeq(b, k + 1, k + Len(w)) = w
=============================================================================
