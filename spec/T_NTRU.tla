------------------------------- MODULE T_NTRU -------------------------------
(* C13: recorded calls of the solver and its building blocks.                *)
EXTENDS TraceBase, NTRU
Q == 12289

KaraOk == Ev.r = RingMulB(Ev.a, Ev.b)
MapsOk == \A e \in {Ev} : /\ e.norm = FieldNorm(e.a)
                          /\ e.conj = Conj(e.a)
                          /\ (Len(e.a) < 1024) => e.lift = Lift(e.a)
XgcdOk == \A e \in {Ev} : /\ BAdd(BMul(e.a, e.x), BMul(e.b, e.y)) = e.g
                          /\ BAbs(e.g) = BGcd(e.x, e.y)
\* the reduction subtracts a multiple of (f, g): f G - g F is unchanged, and
\* the result is reduced
ReduceOk == \A e \in {Ev} : /\ NtruLhs(e.f, e.g, e.F2, e.G2) = NtruLhs(e.f, e.g, e.F, e.G)
                            /\ IsReduced(e.f, e.g, e.F2, e.G2, Tab)
SolveOk == \A e \in {Ev} :
  /\ e.ok = Solvable(e.f, e.g)
  /\ e.ok => IsSolution(e.f, e.g, e.F, e.G, Q) /\ IsReduced(e.f, e.g, e.F, e.G, Tab)

Next == \/ IsEvent("kara") /\ Ok(KaraOk)
        \/ IsEvent("maps") /\ Ok(MapsOk)
        \/ IsEvent("xgcd") /\ Ok(XgcdOk)
        \/ IsEvent("reduce") /\ Ok(ReduceOk)
        \/ IsEvent("solve") /\ Ok(SolveOk)
        \/ IsEvent("setup") /\ Ok(TRUE)
        \/ Finished
Spec == TraceInit /\ [][Next]_<<h, i>>
=============================================================================
