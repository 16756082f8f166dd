------------------------------- MODULE Keygen -------------------------------
(* Key generation: candidates f, g drawn from the generator's bytes until    *)
(* one passes every test.                                                    *)
EXTENDS Scheme, NTRU

MaxFG(n) == IF n = 512 THEN 31 ELSE 15
MaxF == 127
Within(p, m) == \A k \in 1..Len(p) : p[k] \in -m..m
\* the roots of x^n + 1 modulo q: odd powers of a primitive 2n-th root
RECURSIVE PowQ(_, _)
PowQ(b, e) == IF e = 0 THEN 1 ELSE With(PowQ((b * b) % Modulus, e \div 2), LAMBDA r : IF e % 2 = 1 THEN (r * b) % Modulus ELSE r)
RootsQ(n) == With(PowQ(11, 12288 \div (2 * n)), LAMBDA z :
  FoldLeft(LAMBDA acc, k : Append(acc, (acc[Len(acc)] * ((z * z) % Modulus)) % Modulus), <<z>>, [k \in 1..(n - 1) |-> k]))
ResidueQ(p) == [k \in 1..Len(p) |-> p[k] % Modulus]
Invertible(f, roots) == \A v \in {EvalAllQ(ResidueQ(f), roots, Modulus)} : \A k \in 1..Len(v) : v[k] # 0
\* h with h f = g
IsPublic(h, f, g) == /\ Len(h) = Len(f) /\ \A k \in 1..Len(h) : h[k] \in 0..(Modulus - 1)
                     /\ RingMulQ(h, ResidueQ(f), Modulus) = ResidueQ(g)

\* squared Gram-Schmidt norm: max of |(f, g)|^2 and q^2/n * sum 1/(|f_k|^2 + |g_k|^2)
Sqr(p) == FoldLeft(LAMBDA acc, x : acc + x * x, 0, p)
Primal(f, g) == FxInt(Sqr(f) + Sqr(g))
Dual(f, g, tab) ==
  With(ValuesOf(f, tab), LAMBDA a : With(ValuesOf(g, tab), LAMBDA b :
  With(G00(a, b), LAMBDA d :
    BFloorDiv(BMul(BFromInt(Modulus * Modulus),
                   FoldLeft(LAMBDA acc, z : BAdd(acc, FxDiv(FxInt(1), z[1])), <<0>>, d)), BFromInt(Len(f))))))
\* 1.17^2 q = 16822.4121
GsBound == BFloorDiv(FxInt(168224121), BFromInt(10000))
GsTol == FxEps(24)
GsCmp(x) == IF BLt(x, BSub(GsBound, GsTol)) THEN "ok" ELSE IF BLt(BAdd(GsBound, GsTol), x) THEN "gs" ELSE "amb"
GsOf(f, g, tab) ==
  With(GsCmp(Primal(f, g)), LAMBDA a : IF a # "ok" THEN a ELSE GsCmp(Dual(f, g, tab)))

ClearTie(f, g, F, G, tab) == BLe(KMax(f, g, F, G, tab), BSub(BPow2(FS - 1), FxEps(10)))
\* what is wrong with the candidate (wit: a solution of its equation, where
\* one exists and nothing else is wrong)
Fate(f, g, wit, roots, tab) ==
  LET n == Len(f) IN
  IF ~Within(f, MaxFG(n)) \/ ~Within(g, MaxFG(n)) THEN "range"
  ELSE IF ~Invertible(f, roots) THEN "inv"
  ELSE With(GsOf(f, g, tab), LAMBDA a :
    IF a # "ok" THEN a
    ELSE With(ToBigPoly(f), LAMBDA bf : With(ToBigPoly(g), LAMBDA bg :
      IF ~Solvable(bf, bg) THEN "nosol"
      ELSE IF ~wit.sol THEN "ok"
      ELSE With(ToBigPoly(wit.F), LAMBDA bF : With(ToBigPoly(wit.G), LAMBDA bG :
           IF IsSolution(bf, bg, bF, bG, Modulus) /\ ClearTie(bf, bg, bF, bG, tab)
           THEN IF Within(wit.F, MaxF) THEN "ok" ELSE "F"
           ELSE "amb")))))

\* the candidates drawn from b: a sequence of <<f, g>>, or <<>> if b does not
\* end with a candidate or a draw is open
RECURSIVE DrawFrom(_, _, _, _, _)
DrawFrom(n, thr, b, at, acc) ==
  IF at = Len(b) THEN <<"ok", acc>>
  ELSE With(PolyTab(n, thr, b, at), LAMBDA x :
       IF x[1] # "ok" THEN <<x[1], acc>>
       ELSE With(PolyTab(n, thr, b, x[2]), LAMBDA y :
            IF y[1] # "ok" THEN <<y[1], acc>> ELSE DrawFrom(n, thr, b, y[2], Append(acc, <<x[3], y[3]>>))))
DrawAll(n, b) == CHOOSE r \in { DrawFrom(n, thr, b, 0, <<>>) : thr \in {FgTable(n)} } : TRUE

\* a key pair: (f, g, F) completes to a trapdoor within the bounds
Complete(f, g, F, tab) ==
  With(ValuesOf(f, tab), LAMBDA vf : With(ValuesOf(g, tab), LAMBDA vg : With(ValuesOf(F, tab), LAMBDA vF :
    IntsOf(VDiv(VAdd(VMul(vg, vF), [k \in 1..Len(f) |-> CReal(FxInt(Modulus))]), vf), tab))))
Trapdoor(f, g, F, G) == /\ Len(G) = Len(f)
                        /\ IsSolution(ToBigPoly(f), ToBigPoly(g), ToBigPoly(F), ToBigPoly(G), Modulus)
GoodKey(f, g, F, G, tab) ==
  /\ Within(f, MaxFG(Len(f))) /\ Within(g, MaxFG(Len(f))) /\ Within(F, MaxF)
  /\ Invertible(f, RootsQ(Len(f)))
  /\ GsOf(f, g, tab) \in {"ok", "amb"}
  /\ Trapdoor(f, g, F, G)
=============================================================================
