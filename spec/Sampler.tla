------------------------------ MODULE Sampler -------------------------------
(* The sampler of integers close to a Gaussian (centre mu, deviation sigma   *)
(* in [sigmin, 1.8205]), as a function of the random bytes it draws.         *)
(*                                                                           *)
(* One trial draws 9 bytes (a 72-bit integer u), one byte (its lowest bit b) *)
(* and 1 to 8 bytes of a byte-by-byte comparison with the threshold z:       *)
(*   z0 = number of table entries above u           (half Gaussian, 1.8205)  *)
(*   v  = b ? 1 + z0 : -z0                                                   *)
(*   x  = (v - frac(mu))^2 / (2 sigma^2) - z0^2 / (2 1.8205^2)               *)
(*   x  = s ln2 + r;  z = (2 * 2^63 ccs e^-r - 1) >> min(s, 63)              *)
(* where e^-r is the fixed-point polynomial with coefficients ExpC and       *)
(* ccs = sigmin / sigma.  It accepts iff the drawn 64-bit integer is below   *)
(* z, reading only up to the first byte that differs.  On rejection a new    *)
(* trial starts.  The result is v + floor(mu).                               *)
(*                                                                           *)
(* x is exact here; the implementation computes it in double precision, so   *)
(* its threshold may differ by p.slack (relative 2^-42 for given mu, sigma;  *)
(* more where these are results of long computations themselves).  What this *)
(* leaves open has the outcome "amb" (any result is allowed from there on).  *)
EXTENDS Integers, Sequences, SequencesExt, Fx, U72, Util

Rcdt == <<
  <<1,6146,22642,15182,16289,2623>>,
  <<1,23426,32507,24700,6488,1357>>,
  <<1,16895,4179,16973,28270,551>>,
  <<1,19172,3890,3551,2986,173>>,
  <<1,8047,26238,12987,11299,41>>,
  <<1,15711,23273,7507,14934,7>>,
  <<1,27364,22254,30032,294,1>>,
  <<1,25562,19290,32625,3343>>,
  <<1,25640,5366,866,252>>,
  <<1,3177,25608,4086,14>>,
  <<1,12795,18848,19260>>,
  <<1,2335,16150,594>>,
  <<1,10648,19643,13>>,
  <<1,28347,7550>>,
  <<1,23934,94>>,
  <<1,28824>>,
  <<1,198>>,
  <<1,1>> >>
ExpC == <<
  <<1,931,26659,17>>,
  <<1,31750,10521,217>>,
  <<1,5130,14718,2367>>,
  <<1,24645,10043,23670>>,
  <<1,28548,27422,16435,6>>,
  <<1,5859,14831,416,52>>,
  <<1,4074,24758,2912,364>>,
  <<1,28624,7180,17476,2184>>,
  <<1,3840,10766,21845,10922>>,
  <<1,32512,11011,21845,10922,1>>,
  <<1,13312,5,0,0,4>>,
  <<1,18432,32766,32767,32767,7>>,
  <<1,0,0,0,0,8>> >>
Ln2 == <<1,24143,30618,31289,1533,22713>>
Inv2SigMax2 == <<1,11918,30785,24814,17888,4943>>   \* 1/(2 * 1.8205^2)
SigMin(n) == IF n = 1024 THEN <<1,22549,2838,29245,1637,9774,1>> ELSE <<1,28028,26442,19183,1788,9104,1>>
SigMax == <<1,26476,21495,19398,4718,26886,1>>
SigFG == <<1,8622,6107,4572,28354,14188,1>>  \* 1.17 sqrt(q/8192)

BaseSample(u) == FoldLeft(LAMBDA acc, t : acc + (IF BLt(u, t) THEN 1 ELSE 0), 0, Rcdt)

\* 2^63 ccs e^-x, x in [0, ln2], both arguments scaled by 2^63
ApproxExp(x63, c63) ==
  BShr(BMul(c63, FoldLeft(LAMBDA y, c : IF y = <<>> THEN c ELSE BSub(c, BShr(BMul(x63, y), 63)), <<>>, ExpC)), 63)
To63(a) == BShr(a, FS - 63)

\* <<lowest, highest>> threshold for exponent x >= 0
Slack == BPow2(21)
NoEdge == <<0>>
Max64 == BSub(BPow2(64), BOne)
BerRange(x, ccs, slack) ==
  LET s == BFloorDiv(x, Ln2)
      r == BSub(x, BMul(s, Ln2))
      sc == IF BLe(s, <<1, 63>>) THEN BToInt(s) ELSE 63
  IN CHOOSE p \in { <<BShr(BMax(BSub(y2, slack), <<0>>), sc), BShr(BMin(BAdd(y2, slack), Max64), sc)>>
                    : y2 \in {BSub(BShl(ApproxExp(To63(r), To63(ccs)), 1), BOne)} } : TRUE
ByteOf(z, k) == BToInt(BMod2(BShr(z, 64 - 8 * k), 8))   \* k = 1 is the most significant
\* comparison of bytes b[at+1..] with the threshold: <<outcome, bytes used>>
RECURSIVE BerFrom(_, _, _, _, _)
BerFrom(zr, b, at, k, max) ==
  IF k > max THEN <<"rej", k - 1>>
  ELSE IF at + k > Len(b) THEN <<"short", k - 1>>
  ELSE LET lo == ByteOf(zr[1], k)  hi == ByteOf(zr[2], k)  u == b[at + k]
           same == BShr(zr[1], 64 - 8 * k) = BShr(zr[2], 64 - 8 * k)
       IN IF same THEN IF u < lo THEN <<"acc", k>> ELSE IF u > lo THEN <<"rej", k>> ELSE BerFrom(zr, b, at, k + 1, max)
          ELSE IF hi = lo + 1 /\ u < lo THEN <<"acc", k>>
          ELSE IF hi = lo + 1 /\ u > hi THEN <<"rej", k>>
          ELSE <<"amb", k>>

\* what depends on the deviation only: 1/(2 sigma^2), ccs
Dev(sigma, sigmin) == With([i2 |-> FxDiv(FxInt(1), BShl(FxMul(sigma, sigma), 1)), ccs |-> FxDiv(sigmin, sigma)], LAMBDA d : d)
\* parameters of one sample: fractional and integral part of mu, deviation, slack;
\* within `edge` of an integer the parts of mu are open
PrmOf(mu, dev, slack, edge) ==
  With(FxFloor(mu), LAMBDA fl :
  With([fl |-> BToInt(fl), fr |-> BSub(mu, BShl(fl, FS)), i2 |-> dev.i2, ccs |-> dev.ccs, slack |-> slack, edge |-> edge], LAMBDA p : p))
Prm(mu, sigma, sigmin) == PrmOf(mu, Dev(sigma, sigmin), Slack, NoEdge)
OnEdge(p) == BLt(p.fr, p.edge) \/ BLt(BSub(FxInt(1), p.fr), p.edge)
ExpOf(p, v, z0) == BMax(<<0>>, BSub(FxMul(With(BSub(FxInt(v), p.fr), LAMBDA d : FxMul(d, d)), p.i2), BMul(BFromInt(z0 * z0), Inv2SigMax2)))

\* one trial; at = bytes used so far; rev: table draw most significant byte first
\*   <<outcome, bytes used after it, value>>
Trial(p, b, at, rev) ==
  IF at + 11 > Len(b) THEN <<"short", at, 0>>
  ELSE With(BaseSample(IF rev THEN BytesBE(SubSeq(b, at + 1, at + 9)) ELSE BytesLE(SubSeq(b, at + 1, at + 9))), LAMBDA z0 :
       With(IF b[at + 10] % 2 = 1 THEN 1 + z0 ELSE -z0, LAMBDA v :
       With(BerFrom(BerRange(ExpOf(p, v, z0), p.ccs, p.slack), b, at + 10, 1, 8), LAMBDA w :
         <<w[1], at + 10 + w[2], v>>)))

\* the rejection loop: <<"ok"|"amb"|"short", bytes used, sampled integer>>
RECURSIVE SampleFrom(_, _, _, _)
SampleFrom(p, b, at, rev) ==
  With(Trial(p, b, at, rev), LAMBDA t :
    CASE t[1] = "acc" -> <<"ok", t[2], t[3] + p.fl>>
      [] t[1] = "rej" -> SampleFrom(p, b, t[2], rev)
      [] OTHER -> <<t[1], t[2], 0>>)

\* a polynomial of key generation: every coefficient the sum of 4096/n samples
\* around 0;  <<status, bytes used, coefficients>>
\* (for a fixed centre the thresholds of all trials are computed once)
ThrTable(p) == [z0 \in 0..18 |-> [bit \in 0..1 |->
  With(IF bit = 1 THEN 1 + z0 ELSE -z0, LAMBDA v : BerRange(ExpOf(p, v, z0), p.ccs, p.slack))]]
RECURSIVE SampleTab(_, _, _)
SampleTab(thr, b, at) ==
  IF at + 11 > Len(b) THEN <<"short", at, 0>>
  ELSE With(BaseSample(BytesLE(SubSeq(b, at + 1, at + 9))), LAMBDA z0 :
       With(b[at + 10] % 2, LAMBDA bit :
       With(BerFrom(thr[z0][bit], b, at + 10, 1, 8), LAMBDA w :
         CASE w[1] = "acc" -> <<"ok", at + 10 + w[2], IF bit = 1 THEN 1 + z0 ELSE -z0>>
           [] w[1] = "rej" -> SampleTab(thr, b, at + 10 + w[2])
           [] OTHER -> <<w[1], at, 0>>)))
FgTable(n) == ThrTable(Prm(<<0>>, SigFG, SigMin(n)))
PolyTab(n, thr, b, at) ==
  FoldLeft(LAMBDA acc, j :
    IF acc[1] # "ok" THEN acc
    ELSE With(FoldLeft(LAMBDA a, k : IF a[1] # "ok" THEN a
                                     ELSE With(SampleTab(thr, b, a[2]), LAMBDA r : <<r[1], r[2], a[3] + r[3]>>),
                       <<"ok", acc[2], 0>>, [k \in 1..(4096 \div n) |-> k]),
              LAMBDA c : <<c[1], c[2], Append(acc[3], c[3])>>),
    <<"ok", at, <<>>>>, [j \in 1..n |-> j])
PolyFrom(n, b, at) == \* TLC: the table is a value, not an expression
  CHOOSE r \in { PolyTab(n, thr, b, at) : thr \in {FgTable(n)} } : TRUE
=============================================================================
