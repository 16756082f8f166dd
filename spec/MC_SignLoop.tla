---------------------------- MODULE MC_SignLoop -----------------------------
(* The signing loop over Z[x]/(x^2+1), for several trapdoors, every target   *)
(* and every lattice point the sampler may return near it.  Sizes keep the   *)
(* real proportions: the bound is below (q/2)^2 and above what always        *)
(* compresses.  Faults: "norm" (bound not checked), "fit" (an encoding that  *)
(* does not fit is cut off), "salt" (the salt written is not the one         *)
(* hashed), "late" (a good candidate is thrown away).                          *)
EXTENDS Scheme, IOUtils
CONSTANTS q, W, Bits, Bnd, FG, M, Win
One == { << <<-3, 2>>, <<1, 2>> >> }
FGs == { << <<2, 1>>, <<1, -3>> >>, << <<-3, 2>>, <<1, 2>> >>, << <<1, 3>>, <<-2, 1>> >> }
fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv.FAULT ELSE "none"
VARIABLES key, c, salt, ph, s, sig, passed, hope
vars == <<key, c, salt, ph, s, sig, passed, hope>>

Zq2 == { <<a, b>> : a \in 0..(q - 1), b \in 0..(q - 1) }
Box(m) == { <<a, b>> : a \in -m..m, b \in -m..m }
Mod(p) == <<p[1] % q, p[2] % q>>
Lhs(f, g, F, G) == LET a == RingMulZ(f, G) b == RingMulZ(g, F) IN <<a[1] - b[1], a[2] - b[2]>>
InvOf(f) == { r \in Zq2 : RingMulQ(Mod(f), r, q) = <<1, 0>> }
\* one trapdoor for each (f, g): a solution with the smallest (F, G)
Pairs(f, g) == { w \in Box(M) \X Box(M) : Lhs(f, g, w[1], w[2]) = <<q, 0>> }
Size(w) == SumSeq([k \in 1..2 |-> w[1][k] * w[1][k] + w[2][k] * w[2][k]])
KeyOf(f, g) == CHOOSE K \in { [f |-> f, g |-> g, F |-> w[1], G |-> w[2], h |-> RingMulQ(Mod(g), r, q)] :
                  w \in { CHOOSE w \in S : \A v \in S : Size(w) <= Size(v) : S \in {Pairs(f, g)} }, r \in InvOf(f) } : TRUE
Keys == { KeyOf(p[1], p[2]) : p \in FG }

\* floor of the target (c, 0) B^-1 = (-c F / q, c f / q)
Fl(a) == a \div q
T0(K, cc) == LET p == RingMulZ(cc, K.F) IN <<Fl(-p[1]), Fl(-p[2])>>
T1(K, cc) == LET p == RingMulZ(cc, K.f) IN <<Fl(p[1]), Fl(p[2])>>
Around(t) == { <<t[1] + d[1], t[2] + d[2]>> : d \in Win \X Win }
Cands(K, cc) == { ShortPair(K, cc, z[1], z[2]) : z \in Around(T0(K, cc)) \X Around(T1(K, cc)) }

Sq(p) == p[1] * p[1] + p[2] * p[2]
Fate(x) == IF Sq(x[1]) + Sq(x[2]) > Bnd THEN "long" ELSE IF Fits(x[2], W, Bits) THEN "ok" ELSE "nofit"
CutOff(v) == BytesMSB(SubSeq(Pad(EncBits(v, W), 64), 1, Bits))
Hs(cc, st) == IF st = 0 THEN cc ELSE <<(cc[1] + 3) % q, (cc[2] + 1) % q>>

Init == /\ key \in Keys /\ c \in Zq2 /\ salt = 0
        /\ ph = "draw" /\ s = <<>> /\ sig = <<>> /\ passed = FALSE
        /\ hope = (\E x \in Cands(key, c) : Fate(x) = "ok")   \* a good candidate exists
Drawn(fate, next) ==
  /\ ph = "draw"
  /\ \E x \in { y \in Cands(key, c) : Fate(y) = fate } :
       /\ s' = x /\ ph' = next
       /\ passed' = (passed \/ (fate = "ok" /\ next # "emit"))
  /\ UNCHANGED <<key, c, salt, sig, hope>>
DrawGood == ph = "draw" /\ hope /\ Drawn("ok", IF fault = "late" THEN "draw" ELSE "emit")
DrawLong == ph = "draw" /\ Drawn("long", IF fault = "norm" THEN "emit" ELSE "draw")
DrawNofit == ph = "draw" /\ Drawn("nofit", IF fault = "fit" THEN "emit" ELSE "draw")
Emit == /\ ph = "emit" /\ ph' = "done"
        /\ sig' = [salt |-> IF fault = "salt" THEN 1 - salt ELSE salt,
                   body |-> IF Fits(s[2], W, Bits) THEN Comp(s[2], W, Bits) ELSE CutOff(s[2])]
        /\ UNCHANGED <<key, c, salt, s, passed, hope>>
Next == DrawGood \/ DrawLong \/ DrawNofit \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Emit) /\ WF_vars(DrawGood)

\* every point the sampler may return is a preimage of the target
Preimage == s # <<>> => \A k \in 1..2 : (s[1][k] + RingMulQ(Mod(s[2]), key.h, q)[k] - c[k]) % q = 0
\* what is issued is accepted
Accepted == LET st == DecRun(BitsMSB(sig.body), 2, W) IN
  DecOk(st) /\ LET s1 == S1OfQ(Hs(c, sig.salt), st.out, key.h, q) IN Sq(s1) + Sq(st.out) <= Bnd
IssuedIsAccepted == ph = "done" => Accepted
\* ... and is the first good candidate
FirstGood == ~passed
Unique == ph = "done" => DecRun(BitsMSB(sig.body), 2, W).out = s[2]
\* where a good candidate exists signing ends
Ends == hope ~> (ph = "done")
=============================================================================
