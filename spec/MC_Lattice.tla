----------------------------- MODULE MC_Lattice -----------------------------
(* The tree and the sampler against their meaning: over the 2n rows          *)
(*   x^j (g, -f), j in bit-reversed order, then x^j (G, -F)                  *)
(* the leaves hold the lengths of the Gram-Schmidt vectors, and the sampler  *)
(* with deviation zero is the nearest-plane algorithm: what is left of the   *)
(* target has coordinates at most 1/2 along every Gram-Schmidt vector.       *)
EXTENDS Lattice, TLC
CONSTANTS Degrees, Runs, MaxC
VARIABLES n, run, b, t

\* reproducible numbers: a linear congruential generator on 2^30
Lcg(x) == ((x % 32768) * 20077 + (x \div 32768) + 12345) % 1073741824
RECURSIVE Skip(_, _)
Skip(x, k) == IF k = 0 THEN x ELSE Skip(Lcg(x), k - 1)
Rnds(x, k) == FoldLeft(LAMBDA acc, j : <<Lcg(acc[1]), Append(acc[2], acc[1] \div 1024)>>, <<Skip(x, 3), <<>>>>, [j \in 1..k |-> j])[2]
Small(v, m) == [j \in 1..Len(v) |-> (v[j] % (2 * m + 1)) - m]
\* target coordinates in units of 1/1000
Targets(v) == [j \in 1..Len(v) |-> CReal(BFloorDiv(BShl(BFromInt((v[j] % 20001) - 10000), FS), BFromInt(1000)))]

\* multiplication by x, k times
Shift(p, k) == LET m == Len(p) IN [j \in 1..m |-> IF j > k THEN p[j - k] ELSE -p[m + j - k]]
RECURSIVE Order(_)
Order(m) == IF m = 1 THEN <<0>> ELSE LET o == Order(m \div 2) IN [j \in 1..(m \div 2) |-> 2 * o[j]] \o [j \in 1..(m \div 2) |-> 2 * o[j] + 1]
NegP(p) == [j \in 1..Len(p) |-> -p[j]]
Rows(K) == LET m == Len(K.f) o == Order(m) IN
  [j \in 1..m |-> Shift(K.g, o[j]) \o NegP(Shift(K.f, o[j]))] \o [j \in 1..m |-> Shift(K.G, o[j]) \o NegP(Shift(K.F, o[j]))]
FxRow(r) == [j \in 1..Len(r) |-> FxInt(r[j])]
Dot(a, c) == FoldLeftDomain(LAMBDA acc, j : BAdd(acc, FxMul(a[j], c[j])), <<0>>, a)
Minus(a, k, c) == [j \in 1..Len(a) |-> BSub(a[j], FxMul(k, c[j]))]
\* Gram-Schmidt vectors with their squared lengths
GramSchmidt(rows) ==
  FoldLeft(LAMBDA acc, r :
    With(FoldLeft(LAMBDA v, g : With(FxDiv(Dot(r, g[1]), g[2]), LAMBDA k : Minus(v, k, g[1])), r, acc), LAMBDA v :
    With(Dot(v, v), LAMBDA d : Append(acc, <<v, d>>))), <<>>, rows)
TreeOfK(K) == With(ValuesOf(K.f, Tab), LAMBDA vf : With(ValuesOf(K.g, Tab), LAMBDA vg :
  With(ValuesOf(K.F, Tab), LAMBDA vF : With(ValuesOf(K.G, Tab), LAMBDA vG :
    LdlTree(G00(vf, vg), G10(vf, vg, vF, vG), G00(vF, vG), FxInt(1), SigMin(512), Tab)))))
RECURSIVE Near0(_)
Near0(x) == IF "sigma" \in DOMAIN x THEN [sigma |-> x.sigma, near |-> TRUE] ELSE [l |-> x.l, lo |-> Near0(x.lo), hi |-> Near0(x.hi)]
Det(K) == Resultant(RingSubB(RingMulB(ToBigPoly(K.f), ToBigPoly(K.G)), RingMulB(ToBigPoly(K.g), ToBigPoly(K.F))))
KeyOf(v, m) == [f |-> SubSeq(v, 1, m), g |-> SubSeq(v, m + 1, 2 * m), F |-> SubSeq(v, 2 * m + 1, 3 * m), G |-> SubSeq(v, 3 * m + 1, 4 * m)]

Init == /\ n \in Degrees /\ run \in 1..Runs
        /\ b \in {KeyOf(Small(Rnds(7919 * run + n, 4 * n), MaxC), n)}
        /\ t \in {Targets(Rnds(104729 * run + n, 2 * n))}
Next == UNCHANGED <<n, run, b, t>>
Spec == Init /\ [][Next]_<<n, run, b, t>>

Tol == FxEps(30)
\* 1/sigma^2 of leaf number j of the tree
LenOk(gs, leaves) == \A p \in 1..(2 * n) :
  With(leaves[((p - 1) \div 2) + 1], LAMBDA s : FxNear(FxMul(FxMul(s, s), gs[p][2]), FxInt(1), Tol))
Ints(z) == [j \in 1..n |-> z[j][1]]
PlaneOk(gs, rows, tree) ==
  \A r \in {Samp(Near0(tree), FFTx(SubSeq(t, 1, n), Tab), FFTx(SubSeq(t, n + 1, 2 * n), Tab), <<>>, 0, Tab)} :
  \A z0 \in {IFFTx(r[3], Tab)}, z1 \in {IFFTx(r[4], Tab)} :
    /\ r[1] = "ok"
    /\ \A j \in 1..n : \A z \in {z0[j][1], z1[j][1]} : FxNear(z, BShl(FxRound(z), FS), Tol)
    /\ \A o \in {Order(n)} :
       \A e \in {[p \in 1..(2 * n) |-> IF p <= n THEN BSub(t[o[p] + 1][1], BShl(FxRound(z0[o[p] + 1][1]), FS))
                                       ELSE BSub(t[n + o[p - n] + 1][1], BShl(FxRound(z1[o[p - n] + 1][1]), FS))]} :
       \A v \in {FoldLeftDomain(LAMBDA acc, p : Minus(acc, BNeg(e[p]), rows[p]), [j \in 1..(2 * n) |-> <<0>>], e)} :
         \A p \in 1..(2 * n) : BLe(BAbs(Dot(v, gs[p][1])), BAdd(BShr(gs[p][2], 1), Tol))
Meaning ==
  Det(b) = <<0>> \/
  \A rows \in {[j \in 1..(2 * n) |-> FxRow(Rows(b)[j])]} : \A gs \in {GramSchmidt(rows)} :
    (\A k \in 1..(2 * n) : BLt(FxEps(4), gs[k][2])) =>
      \A tree \in {TreeOfK(b)} : LenOk(gs, Leaves(tree)) /\ PlaneOk(gs, rows, tree)
=============================================================================
