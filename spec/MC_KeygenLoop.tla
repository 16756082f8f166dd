--------------------------- MODULE MC_KeygenLoop ----------------------------
(* The key generation loop over Z[x]/(x^2+1): every candidate (f, g), every  *)
(* test of it, the solver by the tower method.  Sizes keep the proportions:  *)
(* the Gram-Schmidt bound is 1.17^2 q, F has twice the room of f and g.      *)
(* Faults: a test left out ("range", "inv", "gs", "nosol", "F"), or a good   *)
(* candidate thrown away ("late").                                           *)
EXTENDS Solver, Keygen, IOUtils
CONSTANTS q, m, maxfg, maxF, gsnum, gsden
fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv.FAULT ELSE "none"
VARIABLES ph, f, g, F, G, passed, out
vars == <<ph, f, g, F, G, passed, out>>
Box(k) == { <<a, b>> : a \in -k..k, b \in -k..k }
None == <<>>
Init == ph = "draw" /\ f = None /\ g = None /\ F = None /\ G = None /\ passed = FALSE /\ out = None
Draw == /\ ph = "draw" /\ \E a, b \in Box(m) \cup {<<m + 1, 0>>, <<1, -m - 1>>} : f' = a /\ g' = b
        /\ ph' = "range" /\ F' = None /\ G' = None /\ UNCHANGED <<passed, out>>
\* tests, one after the other
TRange == Within(f, maxfg) /\ Within(g, maxfg)
RootsToy == { x \in 0..(q - 1) : (x * x + 1) % q = 0 }
TInv == \A x \in RootsToy : (f[1] + f[2] * x) % q # 0
Nrm == Sqr(f) + Sqr(g)
TGs == /\ Nrm * gsden <= gsnum
       /\ q * q * gsden <= gsnum * Nrm
Sol == SolveZ(f, g, q)
Again == ph' = "draw" /\ f' = None /\ g' = None /\ F' = None /\ G' = None
Test(at, holds, next) ==
  /\ ph = at
  /\ IF holds \/ fault = at THEN ph' = next /\ UNCHANGED <<f, g, F, G>> ELSE Again
  /\ UNCHANGED <<passed, out>>
RejRange == ph = "range" /\ ~TRange /\ Test("range", TRange, "inv")
PassRange == ph = "range" /\ TRange /\ Test("range", TRange, "inv")
RejInv == ph = "inv" /\ ~TInv /\ Test("inv", TInv, "gs")
PassInv == ph = "inv" /\ TInv /\ Test("inv", TInv, "gs")
RejGs == ph = "gs" /\ ~TGs /\ Test("gs", TGs, "solve")
PassGs == ph = "gs" /\ TGs /\ Test("gs", TGs, "solve")
NoSol == /\ ph = "solve" /\ ~Sol[1]
         /\ IF fault = "nosol" THEN ph' = "F" /\ F' = <<0, 0>> /\ G' = <<0, 0>> /\ UNCHANGED <<f, g>> ELSE Again
         /\ UNCHANGED <<passed, out>>
Solve == /\ ph = "solve" /\ Sol[1] /\ ph' = "F" /\ F' = Sol[2] /\ G' = Sol[3] /\ UNCHANGED <<f, g, passed, out>>
RejF == ph = "F" /\ ~Within(F, maxF) /\ Test("F", Within(F, maxF), "good")
PassF == ph = "F" /\ Within(F, maxF) /\ Test("F", Within(F, maxF), "good")
Discard == fault = "late" /\ ph = "good" /\ Again /\ passed' = TRUE /\ UNCHANGED out
Emit == /\ ph = "good" /\ ph' = "done" /\ out' = [f |-> f, g |-> g, F |-> F, G |-> G] /\ UNCHANGED <<f, g, F, G, passed>>
Next == Draw \/ RejRange \/ PassRange \/ RejInv \/ PassInv \/ RejGs \/ PassGs \/ NoSol \/ Solve \/ RejF \/ PassF \/ Discard \/ Emit
\* a good candidate comes sooner or later
IsGood(a, b) == With(SolveZ(a, b, q), LAMBDA s : s[1] /\ Within(s[2], maxF))
Steps == RejRange \/ PassRange \/ RejInv \/ PassInv \/ RejGs \/ PassGs \/ NoSol \/ Solve \/ RejF \/ PassF \/ Emit
DrawThe == Draw /\ f' = <<3, 0>> /\ g' = <<1, -2>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps) /\ SF_vars(DrawThe)

\* invertible modulo q, by its definition
RingInvertible(a) == \E r \in { <<x, y>> : x \in 0..(q - 1), y \in 0..(q - 1) } : RingMulQ(<<a[1] % q, a[2] % q>>, r, q) = <<1, 0>>
\* the second row orthogonalised against the first: (F, G) - k (f, g) with k
\* the quotient; its squared length times |(f, g)|^2 is q^2 exactly
DualLen(o) ==
  LET d == Sqr(o.f) + Sqr(o.g)
      k == AddZ(RingMulZ(o.F, AdjZ(o.f)), RingMulZ(o.G, AdjZ(o.g)))   \* over d
      x == SubZ([j \in 1..2 |-> d * o.F[j]], RingMulZ(k, o.f))
      y == SubZ([j \in 1..2 |-> d * o.G[j]], RingMulZ(k, o.g))
  IN Sqr(x) + Sqr(y) = q * q * d /\ q * q * gsden <= gsnum * d
GoodOut == out # None =>
  /\ Within(out.f, maxfg) /\ Within(out.g, maxfg) /\ Within(out.F, maxF)
  /\ RingInvertible(out.f)
  /\ EqnZ(out.f, out.g, out.F, out.G) = <<q, 0>>
  /\ (Sqr(out.f) + Sqr(out.g)) * gsden <= gsnum
  /\ DualLen(out)
FirstGood == ~passed
Ends == <>(ph = "done")
\* G is what f, g, F determine, and the public key is too
GUnique == out # None => \A x \in Box(2 * maxF) : EqnZ(out.f, out.g, out.F, x) = <<q, 0>> => x = out.G
=============================================================================
