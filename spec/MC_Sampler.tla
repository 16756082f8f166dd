----------------------------- MODULE MC_Sampler ------------------------------
(* The sampler's algorithm against its meaning.  One trial with centre       *)
(* r in [0, 1) and deviation sigma proposes v and accepts it with            *)
(*     p(v) = P(z0) * 1/2 * threshold / 2^64,                                *)
(* P from the cumulative table.  For every centre and deviation of a grid:   *)
(*  Law   p(v) = c exp(-(v - r)^2 / (2 sigma^2)) for every v that can be     *)
(*        proposed, to within 2^-45 relative and 2^-69 absolute: what is     *)
(*        accepted is the discrete Gaussian                                  *)
(*  Rate  the probability to accept is the same for every centre and         *)
(*        deviation (it reveals nothing about them), to within 2^-40         *)
(*  Far   what cannot be proposed has probability below 2^-70                *)
EXTENDS Sampler, TLC, IOUtils
CONSTANTS Centres, Deviations
VARIABLES n, i, j

Fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv["FAULT"] ELSE "none"

\* e^-x for x >= 0, by its series on [0, ln 2]
Terms == 24
ExpSmall(r) == FoldLeft(LAMBDA y, k : BSub(FxInt(1), BFloorDiv(FxMul(r, y), BFromInt(Terms + 1 - k))), FxInt(1), [k \in 1..Terms |-> k])
FxExpNeg(x) == With(BFloorDiv(x, Ln2), LAMBDA s :
  IF BLe(<<1, 100>>, s) THEN <<0>> ELSE BShr(ExpSmall(BSub(x, BMul(s, Ln2))), BToInt(s)))

\* pi = 16 arctan(1/5) - 4 arctan(1/239)
RECURSIVE ArcTan(_, _, _)
ArcTan(pw, m, k) == IF pw = <<0>> THEN <<0>> ELSE BSub(BFloorDiv(pw, BFromInt(k)), ArcTan(BFloorDiv(pw, BFromInt(m * m)), m, k + 2))
Pi == BSub(BMul(<<1, 16>>, ArcTan(BFloorDiv(FxInt(1), <<1, 5>>), 5, 1)), BMul(<<1, 4>>, ArcTan(BFloorDiv(FxInt(1), <<1, 239>>), 239, 1)))

\* mass of z0, scaled by 2^72: 0..18
Cum(k) == IF k = 0 THEN BPow2(72) ELSE IF k > 18 THEN <<0>>
          ELSE IF Fault = "table" /\ k = 3 THEN BAdd(Rcdt[k], BPow2(40)) ELSE Rcdt[k]
Mass(z0) == BSub(Cum(z0), Cum(z0 + 1))
MassFx(z0) == BShl(Mass(z0), FS - 72)

Centre == BFloorDiv(FxInt(i), BFromInt(Centres))
Sigma == With(SigMin(n), LAMBDA lo : BAdd(lo, BFloorDiv(BMul(BSub(SigMax, lo), BFromInt(j)), BFromInt(Deviations))))
Val(z0, bit) == IF bit = 1 THEN 1 + z0 ELSE -z0
\* probability that a trial proposes v and accepts it (two-sided half)
Prob(p, z0, bit) ==
  With(BerRange(IF Fault = "sign" THEN ExpOf(p, z0, z0) ELSE ExpOf(p, Val(z0, bit), z0), IF Fault = "ccs" THEN FxInt(1) ELSE p.ccs, <<0>>), LAMBDA t : BShr(BMul(MassFx(z0), t[1]), 65))
Scale(p) == BShr(FxMul(MassFx(0), p.ccs), 1)
Ideal(p, v) == With(BSub(FxInt(v), p.fr), LAMBDA d : FxMul(Scale(p), FxExpNeg(FxMul(FxMul(d, d), p.i2))))

Init == n \in {512, 1024} /\ i \in 0..(Centres - 1) /\ j \in 0..Deviations
Next == UNCHANGED <<n, i, j>>
Spec == Init /\ [][Next]_<<n, i, j>>

Law == \A p \in {Prm(Centre, Sigma, SigMin(n))} : \A z0 \in 0..18, bit \in 0..1 :
  \A w \in {Ideal(p, Val(z0, bit))} : FxNear(Prob(p, z0, bit), w, BAdd(BShr(w, 45), FxEps(69)))
Total(p) == FoldLeft(LAMBDA acc, z0 : BAdd(acc, BAdd(Prob(p, z0, 0), Prob(p, z0, 1))), <<0>>, [z \in 1..19 |-> z - 1])
Rate == \A p \in {Prm(Centre, Sigma, SigMin(n))} :
  FxNear(Total(p), BShr(FxMul(MassFx(0), FxMul(SigMin(n), FxSqrt(BShl(Pi, 1)))), 1), FxEps(40))
Far == \A p \in {Prm(Centre, Sigma, SigMin(n))} : \A v \in {-19, 20} : BLe(Ideal(p, v), FxEps(70))

ASSUME FxNear(FxExpNeg(BSub(Ln2, BOne)), FxEps(1), FxEps(70)) /\ FxNear(FxExpNeg(Ln2), FxEps(1), FxEps(70))
\* the sum of 4096/n samples of key generation has variance 1.17^2 q/(2n)
ASSUME FxNear(BMul(FxMul(SigFG, SigFG), BFromInt(8192)), BFloorDiv(BShl(BMul(BFromInt(12289), BFromInt(117 * 117)), FS), BFromInt(10000)), FxEps(34))
=============================================================================
