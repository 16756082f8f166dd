------------------------------- MODULE T_U72 --------------------------------
(* C15: recorded results of the wide-integer helpers.                        *)
EXTENDS TraceBase, U72

U72Ok == \A e \in {Ev} : \A k \in 1..Len(e.a) : \A a \in {e.a[k]}, b \in {e.b[k]} :
           /\ e.add[k] = U72Add(a, b)
           /\ e.sub[k] = U72Sub(a, b)
           /\ e.neg[k] = U72Neg(a)
           /\ e.cmp[k] = U72Cmp(a, b)
BytesOk == \A e \in {Ev} :
           /\ e.be = BytesBE(e.b)
           /\ e.le = BytesLE(e.b)
           /\ IsByteSeq(e.tobe, 9) /\ BytesBE(e.tobe) = e.v
           /\ IsByteSeq(e.tole, 9) /\ BytesLE(e.tole) = e.v
MulOk == \A e \in {Ev} : \A k \in 1..Len(e.a) : e.r[k] = FullMul(e.a[k], e.b[k])
TopOk == \A e \in {Ev} : \A k \in 1..Len(e.a) : e.r[k] = Top63(e.a[k])

Next == \/ IsEvent("u72") /\ Ok(U72Ok)
        \/ IsEvent("bytes") /\ Ok(BytesOk)
        \/ IsEvent("mul") /\ Ok(MulOk)
        \/ IsEvent("top") /\ Ok(TopOk)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
