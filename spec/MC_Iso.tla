------------------------------- MODULE MC_Iso -------------------------------
(* Calls of several threads, interleaved at every step, over shared inputs.  *)
(* Each call copies its input into working memory, transforms it in steps    *)
(* and stores the result.  With private working memory every call returns    *)
(* what it returns alone.  Faults: "static" (working memory shared by all    *)
(* calls), "cache" (a result kept per address of the input), "input" (the    *)
(* caller's input used as working memory), "next" (a store next to the       *)
(* output).                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Iso
CONSTANTS Threads, Values, Steps, Calls
fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv.FAULT ELSE "none"
VARIABLES inp,    \* shared inputs, by address
          orig,   \* what the caller put there
          pc, addr, work, static, cache, out, pad, left, memo
vars == <<inp, orig, pc, addr, work, static, cache, out, pad, left, memo>>
Addrs == {1, 2}
F(x) == (x + Steps) % (Cardinality(Values) + Steps)   \* alone
Init == /\ inp \in [Addrs -> Values] /\ orig = inp
        /\ pc = [t \in Threads |-> 0] /\ addr = [t \in Threads |-> 1]
        /\ work = [t \in Threads |-> 0] /\ static = 0 /\ cache = [a \in Addrs |-> -1]
        /\ out = [t \in Threads |-> -1] /\ pad = [t \in Threads |-> 0] /\ left = Calls /\ memo = <<>>
Idle(t) == pc[t] = 0
\* the owner rewrites a buffer no call is using
Refill(a, v) == /\ \A t \in Threads : Idle(t) \/ addr[t] # a
                /\ inp[a] # v /\ inp' = [inp EXCEPT ![a] = v] /\ orig' = [orig EXCEPT ![a] = v]
                /\ UNCHANGED <<pc, addr, work, static, cache, out, pad, left, memo>>
Start(t, a) == /\ Idle(t) /\ left > 0 /\ left' = left - 1
               /\ addr' = [addr EXCEPT ![t] = a] /\ pc' = [pc EXCEPT ![t] = 1]
               /\ IF fault = "static" THEN static' = inp[a] /\ UNCHANGED work ELSE work' = [work EXCEPT ![t] = inp[a]] /\ UNCHANGED static
               /\ UNCHANGED <<inp, orig, cache, out, pad, memo>>
Bump(x) == (x + 1) % (Cardinality(Values) + Steps)
Step(t) == /\ pc[t] \in 1..Steps /\ pc' = [pc EXCEPT ![t] = @ + 1]
           /\ CASE fault = "static" -> static' = Bump(static) /\ UNCHANGED <<work, inp>>
                [] fault = "input" -> inp' = [inp EXCEPT ![addr[t]] = Bump(@)] /\ work' = [work EXCEPT ![t] = Bump(inp[addr[t]])] /\ UNCHANGED static
                [] OTHER -> work' = [work EXCEPT ![t] = Bump(@)] /\ UNCHANGED <<static, inp>>
           /\ UNCHANGED <<orig, addr, cache, out, pad, left, memo>>
Finish(t) == /\ pc[t] = Steps + 1 /\ pc' = [pc EXCEPT ![t] = 0]
             /\ LET r == IF fault = "static" THEN static ELSE work[t]
                    v == IF fault = "cache" /\ cache[addr[t]] # -1 THEN cache[addr[t]] ELSE r IN
                /\ out' = [out EXCEPT ![t] = v]
                /\ cache' = [cache EXCEPT ![addr[t]] = IF fault = "cache" THEN v ELSE @]
                /\ memo' = IF Agrees(memo, orig[addr[t]], v) THEN Learn(memo, orig[addr[t]], v) ELSE Learn(memo, orig[addr[t]], -2)
             /\ pad' = [pad EXCEPT ![t] = IF fault = "next" THEN 1 ELSE 0]
             /\ UNCHANGED <<inp, orig, addr, work, static, left>>
Next == (\E t \in Threads, a \in Addrs : Start(t, a)) \/ (\E t \in Threads : Step(t) \/ Finish(t)) \/ (\E a \in Addrs, v \in Values : Refill(a, v))
Spec == Init /\ [][Next]_vars
\* every result is that of the call alone
Function == \A x \in DOMAIN memo : memo[x] = F(x)
InputsKept == inp = orig
NothingNext == \A t \in Threads : pad[t] = 0
=============================================================================
