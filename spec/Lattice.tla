------------------------------ MODULE Lattice -------------------------------
(* The secret basis, its tree and the sampler of lattice points near a       *)
(* target, in the FFT domain (fixed point, natural order of the roots).      *)
(*                                                                           *)
(* Basis rows (g, -f) and (G, -F).  The tree of a 2x2 Hermitian matrix       *)
(* [[g00, g10*], [g10, g11]] of degree n holds l = g10/g00 and the trees of  *)
(* d00 = g00 and d11 = g11 - l l* g00, each seen as the 2x2 matrix of        *)
(* degree n/2 that multiplication by it is.  At degree one, a leaf holds     *)
(* the deviation sigma/sqrt(d).                                              *)
EXTENDS Integers, Sequences, SequencesExt, Ring, CFFT, Sampler, Codec, Util

SigmaSig(n) == IF n = 1024 THEN <<1,18739,28271,8391,23238,12732,168>> ELSE <<1,31889,8309,21763,15461,24137,165>>
ValuesOf(p, tab) == FFTx(IntPolyC(p), tab)
G00(f, g) == VAdd(VMul(g, VConj(g)), VMul(f, VConj(f)))
G10(f, g, F, G) == VAdd(VMul(G, VConj(g)), VMul(F, VConj(f)))

Leaf(d, sigma, smin) == With(FxDiv(sigma, FxSqrt(d)), LAMBDA s : With([sigma |-> s, dev |-> Dev(s, smin)], LAMBDA r : r))
RECURSIVE LdlTree(_, _, _, _, _, _)
LdlTree(g00, g10, g11, sigma, smin, tab) ==
  LET Sub(d) == IF Len(d) = 2 THEN Leaf(d[1][1], sigma, smin)
                ELSE With(SplitE(d), LAMBDA e : With(SplitO(d, tab), LAMBDA o : With(VConj(o), LAMBDA oc :
                       LdlTree(e, oc, e, sigma, smin, tab))))
  IN With(VDiv(g10, g00), LAMBDA l :
     With(VSub(g11, VMul(VMul(l, VConj(l)), g00)), LAMBDA d11 :
     With([l |-> l, lo |-> Sub(g00), hi |-> Sub(d11)], LAMBDA t : t)))

\* expanded secret key
Expand(f, g, F, G, tab) ==
  With(ValuesOf(f, tab), LAMBDA vf : With(ValuesOf(g, tab), LAMBDA vg :
  With(ValuesOf(F, tab), LAMBDA vF : With(ValuesOf(G, tab), LAMBDA vG :
    [f |-> f, g |-> g, F |-> F, G |-> G, vf |-> vf, vg |-> vg, vF |-> vF, vG |-> vG,
     tree |-> LdlTree(G00(vf, vg), G10(vf, vg, vF, vG), G00(vF, vG), SigmaSig(Len(f)), SigMin(Len(f)), tab)]))))

RECURSIVE Leaves(_)
Leaves(t) == IF "sigma" \in DOMAIN t THEN <<t.sigma>> ELSE Leaves(t.lo) \o Leaves(t.hi)

\* the tree in the flat layout of the implementation: row j holds the 2^j
\* nodes of degree n/2^j in order (values in the order of its transform), the
\* last row the leaves
Children(nodes) == FoldLeft(LAMBDA acc, t : acc \o <<t.lo, t.hi>>, <<>>, nodes)
RECURSIVE RowsFrom(_, _)
RowsFrom(nodes, lays) ==
  IF "sigma" \in DOMAIN nodes[1] THEN [k \in 1..Len(nodes) |-> CReal(nodes[k].sigma)]
  ELSE FoldLeft(LAMBDA acc, t : acc \o ToOrder(t.l, lays[Lg(Len(t.l))]), <<>>, nodes) \o RowsFrom(Children(nodes), lays)
Flat(t, lays) == RowsFrom(<<t>>, lays)

\* randomized nearest plane:  <<status, bytes used, z0, z1>> (values of z)
MuSlack == BPow2(35)
MuEdge == FxEps(33)
RECURSIVE Samp(_, _, _, _, _, _)
Samp(t, t0, t1, b, at, tab) ==
  IF "near" \in DOMAIN t  \* deviation zero
  THEN <<"ok", at, <<CReal(BShl(FxRound(t0[1][1]), FS))>>, <<CReal(BShl(FxRound(t1[1][1]), FS))>>>>
  ELSE IF "sigma" \in DOMAIN t
  THEN With(PrmOf(t0[1][1], t.dev, MuSlack, MuEdge), LAMBDA p0 : With(PrmOf(t1[1][1], t.dev, MuSlack, MuEdge), LAMBDA p1 :
       IF OnEdge(p0) \/ OnEdge(p1) THEN <<"amb", at, <<>>, <<>>>>
       ELSE With(SampleFrom(p0, b, at, FALSE), LAMBDA r0 :
            IF r0[1] # "ok" THEN <<r0[1], r0[2], <<>>, <<>>>>
            ELSE With(SampleFrom(p1, b, r0[2], FALSE), LAMBDA r1 :
                 IF r1[1] # "ok" THEN <<r1[1], r1[2], <<>>, <<>>>>
                 ELSE <<"ok", r1[2], <<CReal(FxInt(r0[3]))>>, <<CReal(FxInt(r1[3]))>>>>))))
  ELSE With(SplitE(t1), LAMBDA e1 : With(SplitO(t1, tab), LAMBDA o1 :
       With(Samp(t.hi, e1, o1, b, at, tab), LAMBDA y :
       IF y[1] # "ok" THEN y
       ELSE With(MergeEO(y[3], y[4], tab), LAMBDA z1 :
            With(VAdd(t0, VMul(VSub(t1, z1), t.l)), LAMBDA u :
            With(SplitE(u), LAMBDA e0 : With(SplitO(u, tab), LAMBDA o0 :
            With(Samp(t.lo, e0, o0, b, y[2], tab), LAMBDA x :
              IF x[1] # "ok" THEN x ELSE <<"ok", x[2], MergeEO(x[3], x[4], tab), z1>>))))))))
=============================================================================
