------------------------------- MODULE GenSig -------------------------------
(* Malformed and boundary signature bodies as scenarios for the real codec:  *)
(* each is a step of the abstract writer below, one per way of producing a   *)
(* body.  TLC enumerates them; the driver builds the concrete bytes; T_Codec *)
(* decides each against the format.                                          *)
(*   slack: bits left after the last coefficient (negative: cut off)         *)
(*   where: coefficients that carry the long unary parts                     *)
(*   zero:  coefficient encoded as negative zero (0 none, -1 random)         *)
(*   trail: bit set to one after the last coefficient (-1 none, k-th pad bit,*)
(*          999 the last bit of the body)                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES sc
Slacks == {-9, -8, -7, -2, -1, 0, 1, 2, 7, 8, 9, 17, 100}
Wheres == {"first", "last", "spread", "two", "small"}
Zs == {0, 1, 2, 511, -1, -2}
Trails == {-1, 0, 1, 7, 8, 999}
All == { [slack |-> s, where |-> w, zero |-> z, trail |-> t] : s \in Slacks, w \in Wheres, z \in Zs, t \in Trails }
\* meaningful: pad bits exist; at most one deviation of each kind
Useful(x) == /\ (x.trail >= 0 => x.where = "small" \/ x.slack > (IF x.trail = 999 THEN 0 ELSE x.trail))
             /\ (x.zero # 0 => x.slack >= 0 /\ x.slack \in {0, 1, 100})
             /\ (x.zero \in {2, 511} => x.trail = -1)
             /\ (x.where = "small" => x.slack = 0)
Init == sc \in { x \in All : Useful(x) }
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ x \in All : Useful(x) }))
=============================================================================
