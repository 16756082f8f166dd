------------------------------ MODULE MC_Fresh ------------------------------
(* Key generations, signatures and one-shot signatures by several callers    *)
(* interleaved at every read: no stream position is used twice and no two    *)
(* signatures share a salt.  `reuse` switches a fault on, to see that the    *)
(* specification tells it apart: "salt" (kept across signatures), "copy" (a  *)
(* generator copied), "seed" (seeded from fewer words than it has states).   *)
EXTENDS Fresh, TLC, IOUtils
CONSTANTS Callers, MaxGen, MaxOps, SaltSize, MaxTries
fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv.FAULT ELSE "none"
VARIABLES st,    \* Fresh state
          call,  \* per caller: operation in progress
          own,   \* per caller: generator of its own (0: none yet)
          used,  \* stream positions used: << generator, position, purpose >>
          ops,
          kept,  \* salt kept by the "salt" fault
          twice  \* a salt appeared twice
vars == <<st, call, own, used, ops, kept, twice>>
Idle == [op |-> "idle", g |-> 0, left |-> 0, tries |-> 0, salt |-> <<>>]
SeedOf(k) == IF fault = "seed" THEN k \div 2 ELSE k
Init == st = FreshInit /\ call = [c \in Callers |-> Idle] /\ own = [c \in Callers |-> 0] /\ used = {} /\ ops = 0 /\ kept = <<>> /\ twice = FALSE
\* the k-th generator draws the k-th words of the device
Fresh1(k) == LET s == SeedOf(k) IN [st EXCEPT !.dev = @ \cup {k}, !.seeds = @ \cup {s}, !.pos = Append(@, 0)]
StartOneShot(c, op) ==
  /\ call[c].op = "idle" /\ ops < MaxOps /\ Len(st.pos) < MaxGen
  /\ LET g == Len(st.pos) + 1 IN
     /\ st' = Fresh1(g)
     /\ call' = [call EXCEPT ![c] = [op |-> op, g |-> g, left |-> IF op = "keygen" THEN 0 ELSE SaltSize, tries |-> 0, salt |-> <<>>]]
  /\ ops' = ops + 1 /\ UNCHANGED <<own, used, kept, twice>>
StartOwn(c) ==
  /\ call[c].op = "idle" /\ ops < MaxOps
  /\ IF own[c] = 0
     THEN Len(st.pos) < MaxGen /\ st' = Fresh1(Len(st.pos) + 1) /\ own' = [own EXCEPT ![c] = Len(st.pos) + 1]
     ELSE UNCHANGED <<st, own>>
  /\ call' = [call EXCEPT ![c] = [op |-> "sign", g |-> own'[c], left |-> SaltSize, tries |-> 0, salt |-> <<>>]]
  /\ ops' = ops + 1 /\ UNCHANGED <<used, kept, twice>>
Byte(g, p) == <<SeedOf(g), p>>
Take(c, purpose) ==
  LET g == call[c].g  p == st.pos[g] IN
  /\ st' = IF fault = "copy" /\ purpose = "draw" THEN st ELSE DoRead(st, g, 1)
  /\ used' = used \cup {<<Byte(g, p), c, ops, purpose, call[c].tries>>}
ReadSalt(c) ==
  /\ call[c].op = "sign" /\ call[c].left > 0
  /\ Take(c, "salt")
  /\ call' = [call EXCEPT ![c].left = @ - 1, ![c].salt = Append(@, Byte(call[c].g, st.pos[call[c].g]))]
  /\ UNCHANGED <<own, ops, kept, twice>>
\* a candidate, rejected or not
Draw(c) ==
  /\ call[c].op \in {"sign", "keygen"} /\ call[c].left = 0 /\ call[c].tries < MaxTries
  /\ Take(c, "draw")
  /\ \E good \in BOOLEAN :
       call' = [call EXCEPT ![c].tries = @ + 1, ![c].op = IF good THEN (IF @ = "sign" THEN "emit" ELSE "idle") ELSE @]
  /\ UNCHANGED <<own, ops, kept, twice>>
Emit(c) ==
  /\ call[c].op = "emit"
  /\ LET salt == IF fault = "salt" /\ kept # <<>> THEN kept ELSE call[c].salt IN
     /\ kept' = salt
     /\ IF CanSalt(st, salt) THEN st' = DoSalt(st, salt) /\ UNCHANGED twice ELSE twice' = TRUE /\ UNCHANGED st
  /\ call' = [call EXCEPT ![c] = Idle]
  /\ UNCHANGED <<own, used, ops>>
Next == \E c \in Callers : StartOneShot(c, "keygen") \/ StartOneShot(c, "sign") \/ StartOwn(c) \/ ReadSalt(c) \/ Draw(c) \/ Emit(c)
Spec == Init /\ [][Next]_vars
OneUse == \A a, b \in used : a[1] = b[1] => a = b
SaltsOnce == ~twice
SeedsDistinct == Cardinality(st.seeds) = Len(st.pos)
\* each position of each stream handed out so far was used
Consecutive == Cardinality(used) = LET S[k \in 0..Len(st.pos)] == IF k = 0 THEN 0 ELSE S[k - 1] + st.pos[k] IN S[Len(st.pos)]
=============================================================================
