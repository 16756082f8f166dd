From f7a2dc1638de1676b94d57a3f1abae590e8e772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 01/12] fix: verification must not overflow the squared norm

The squared norm of (s1, s2) was accumulated in 32 bits; it exceeds 2^31 for
arbitrary signatures, wrapped to a negative value and passed the bound.
---
 include/verification.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..7bbe207 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,13 +67,13 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
   }
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += normalized_s1[i] * normalized_s1[i];
+    sqrd_norm += static_cast<int64_t>(normalized_s1[i]) * normalized_s1[i];
   }
 
   return sqrd_norm <= β2;
-- 
2.43.0


From 899d6db6f43c7639c06bb4a6f285841e0c3ca120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 02/12] fix: centre residue (q-1)/2 as itself when verifying

The residue 6144 was mapped to -6145 instead of 6144, its representative of
smallest absolute value.
---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 7bbe207..86dd4a3 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From e4037667de02d46a69d9c3246bda8c910fcaeb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 03/12] fix: reject public keys holding a coefficient >= q

---
 include/decoding.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..f02f15e 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -13,8 +13,9 @@ namespace decoding {
 // https://falcon-sign.info/falcon.pdf
 //
 // Note, Falcon public key's first byte i.e. header byte should be encoded as
-// described in specification, otherwise decoding will fail, returning false. In
-// case of successful decoding, truth value is returned.
+// described in specification and each coefficient should be < q, otherwise
+// decoding will fail, returning false. In case of successful decoding, truth
+// value is returned.
 template<const size_t N>
 static inline bool
 decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
@@ -44,6 +45,16 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
+  // enforce each coefficient ∈ [0, q)
+  bool failed = false;
+  for (size_t i = 0; i < N; i++) {
+    failed |= h[i].v >= ff::Q;
+  }
+  if (failed) [[unlikely]] {
+    std::fill_n(h, N, 0);
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From cd8836e16d5eb5dd79e6ad28561642111a2de1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 04/12] fix: reject secret keys holding a forbidden minimal
 value

---
 include/decoding.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index f02f15e..86a6813 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -63,8 +63,9 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
 // section 3.11.5 of Falcon specification https://falcon-sign.info/falcon.pdf
 //
 // Note, Falcon secret key's first byte i.e. header byte should be encoded as
-// described in specification, otherwise decoding will fail, returning false. In
-// case of successful decoding, truth value is returned.
+// described in specification and no coefficient can hold the ( forbidden )
+// minimal value of its bit width, otherwise decoding will fail, returning
+// false. In case of successful decoding, truth value is returned.
 template<const size_t N>
 static inline bool
 decode_skey(const uint8_t* const __restrict skey,
@@ -180,6 +181,22 @@ decode_skey(const uint8_t* const __restrict skey,
     F[Foff] = skey[skoff] - (skey[skoff] > F_max) * F_wrap_at;
   }
 
+  // enforce absence of minimal values i.e. -2^(k-1), when using k -bits
+  constexpr int32_t fg_min = N == 512 ? -32 : -16;
+  constexpr int32_t F_min = -128;
+
+  bool failed = false;
+  for (size_t i = 0; i < N; i++) {
+    failed |= (f[i] == fg_min) | (g[i] == fg_min) | (F[i] == F_min);
+  }
+  if (failed) [[unlikely]] {
+    std::fill_n(f, N, 0);
+    std::fill_n(g, N, 0);
+    std::fill_n(F, N, 0);
+
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 844dbf383673696fa575d544cd946b3aaef604b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 05/12] fix: decompress every encodable coefficient, within the
 signature

A unary part of 8 or more zeros left the coefficient without its high bits and
skipped to a byte boundary, so that signatures with a coefficient >= 1024 were
misread; bytes following the signature were read; an encoding filling the
signature exactly was refused.
---
 include/decoding.hpp | 59 ++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 41 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 86a6813..f5489ff 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -306,7 +306,8 @@ decompress_sig(const uint8_t* const __restrict sig,
   size_t coeff_idx = 0;
   bool failed = false;
 
-  while ((coeff_idx < N) && (bit_idx < slen)) {
+  // each coefficient takes at least 9 -bits
+  while ((coeff_idx < N) && (bit_idx + 9 <= slen)) {
     int32_t coeff = 0;
     uint8_t sign_bit = 0;
 
@@ -321,31 +322,20 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
-      if (k < 8) [[likely]] {
-        coeff += (1 << 7) * k;
-        bit_idx += k;
-      } else {
-        bit_idx += k;
-        for (; bit_idx < slen;) {
-          const auto ebits = std::min(8ul, slen - bit_idx);
-
-          size_t v = 0;
-          if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::countl_zero(t);
-          } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
-            v = std::countl_zero(t);
-          }
-          k += v;
-          bit_idx += ebits;
-
-          if (v < ebits) {
-            break;
-          }
+      int32_t k = 0;
+      while (bit_idx < slen) {
+        const int32_t ebits = 8 - static_cast<int32_t>(bit_idx & 7ul);
+        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+        const int32_t v = std::min(ebits, std::countl_zero(t));
+
+        k += v;
+        bit_idx += v;
+
+        if (v < ebits) {
+          break;
         }
       }
+      coeff += (1 << 7) * k;
     }
 
     // recompute coefficient s_i
@@ -365,23 +355,10 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
-  if (!failed) {
-    for (; bit_idx < slen;) {
-      const size_t ebits = std::min(8ul, slen - bit_idx);
-
-      size_t v = 0;
-      if (ebits == 8) [[likely]] {
-        const auto t = extract_8_contiguous_bits(sig, bit_idx);
-        v = std::countl_zero(t);
-      } else {
-        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-        v = std::countl_zero(t);
-      }
-
-      bit_idx += ebits;
-      failed |= (v < ebits);
-    }
+  failed |= (bit_idx > slen) | (coeff_idx < N);
+  while (!failed && (bit_idx < slen)) {
+    failed |= extract_rem_contiguous_bits_in_byte(sig, bit_idx) != 0;
+    bit_idx += 8 - (bit_idx & 7ul);
   }
 
   std::memset(poly_s, 0, sizeof(int32_t) * N * failed);
-- 
2.43.0


From 1608e8a778f12d17d6b1d00a87599b4004e3894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 06/12] fix: bound signature compression by the signature size

Large coefficients were written past the end of the stack buffer before the
length was checked; an encoding filling the signature exactly was refused.
---
 include/encoding.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..420c1df 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -182,6 +182,14 @@ compress_sig(const int32_t* const __restrict poly_s,
   size_t coeff_idx = 0;
 
   while (coeff_idx < N) {
+    // stop, if encoding of this coefficient doesn't fit
+    const int64_t abs_coeff = std::abs(static_cast<int64_t>(poly_s[coeff_idx]));
+    const size_t blen = 1 + 7 + static_cast<size_t>(abs_coeff >> 7) + 1;
+    if (bit_idx + blen > slen) {
+      bit_idx = slen + 1;
+      break;
+    }
+
     // encode sign bit
     {
       const size_t byte_idx = bit_idx >> 3;
@@ -223,10 +231,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From 6aee70b82cd537637a30735978af2816ff90ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 07/12] fix: start key generation over when f, g or F can't be
 encoded

Coefficients outside of the ranges of the secret key encoding were truncated
when serializing, giving a key pair whose halves don't belong together.
---
 include/ntru_gen.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..fb5ab9b 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -504,6 +504,20 @@ ntru_solve(const std::array<mpz_class, N>& f, const std::array<mpz_class, N>& g)
   }
 }
 
+// Checks whether all coefficients of a polynomial ∈ [-max, max], which is what
+// can be represented, when encoding secret key.
+template<const size_t N>
+static inline bool
+is_encodable(const int32_t* const poly, const int32_t max)
+{
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (poly[i] >= -max) & (poly[i] <= max);
+  }
+
+  return flg;
+}
+
 // Given a modulus q ( = 12289 ), this routine generates four polynomials f, g,
 // F, G ∈ Z[x]/(x^N + 1), solving NTRU equation ( see eq 3.15 of Falcon
 // specification ). This routine is an implementation of algorithm 5 of Falcon
@@ -517,10 +531,17 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  constexpr int32_t max_fg = N == 512 ? 31 : 15;
+  constexpr int32_t max_F = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
 
+    if (!is_encodable<N>(f, max_fg) || !is_encodable<N>(g, max_fg)) {
+      continue;
+    }
+
     if (!is_poly_invertible<log2<N>()>(f)) {
       continue;
     }
@@ -547,6 +568,10 @@ ntru_gen(int32_t* const __restrict f,
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
     }
+
+    if (!is_encodable<N>(F, max_F)) {
+      continue;
+    }
     break;
   }
 }
-- 
2.43.0


From 8029cbb2e640461b71ffa5aae7c9341b2be1c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 08/12] fix: seed the generator with 32 random bytes, not 32
 random bits

The 32 seed bytes were the expansion of a single 32-bit draw of the system's
random device, so that instances ( thus keys and salts ) repeat after about 2^16
of them.
---
 include/prng.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..cef46df 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -7,8 +7,8 @@ namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
 // SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// uniform uint8_t random number generator distribution, using system random
+// device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +23,11 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
     std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
     for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+      seed[i] = dis(rd);
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From 3f683bc5fdd430670ee63da4fbb15782ce649bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 09/12] fix: stop reducing (F, G) at a tie

---
 include/ntru_gen.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index fb5ab9b..d293a87 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -420,7 +420,11 @@ reduce(const std::array<mpz_class, N>& f,
 
     signed long k_rounded[N];
     for (size_t i = 0; i < N; i++) {
-      k_rounded[i] = static_cast<signed long>(std::round(k[i].real()));
+      // ties ( also if off by an error of the FFT ) are rounded towards zero, so
+      // that no step undoes the previous one
+      const double v = k[i].real();
+      const double v_ = std::round(v - std::copysign(1e-9, v));
+      k_rounded[i] = static_cast<signed long>(v_);
     }
 
     bool atleast_one_nonzero = false;
-- 
2.43.0


From 0976d8a253575937b7f52a32c488095568ebb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 10/12] fix: keep the exponent passed to approx_exp
 non-negative under rounding

With FMA contraction x - floor(x / ln2) * ln2 can come out slightly negative
( as can x itself ), whose conversion to an unsigned integer is undefined and
turned an almost certain acceptance into a garbage threshold.
---
 include/samplerz.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..d9cc3a1 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -249,8 +249,9 @@ approx_exp(const double x, const double ccs)
 static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
-  const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  // neither x nor r is negative, but rounding may leave them slightly so
+  const double s = std::floor(std::max(x, 0.) * INV_LN2);
+  const double r = std::max(std::max(x, 0.) - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
@@ -286,8 +287,9 @@ ber_exp(const double x,
         const uint8_t* const rbytes,
         const size_t rblen)
 {
-  const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  // neither x nor r is negative, but rounding may leave them slightly so
+  const double s = std::floor(std::max(x, 0.) * INV_LN2);
+  const double r = std::max(std::max(x, 0.) - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
-- 
2.43.0


From dfb8707cbc952bc7da3b4cfbf87c82ee9cfdfff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 11/12] fix: let the reduction of (F, G) end when double
 precision can't tell the quotient

For ill-conditioned f, g the quotient overflowed signed long, or never got
smaller, so that ntru_solve() didn't return.
---
 include/ntru_gen.hpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index d293a87..20854cc 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -364,6 +364,8 @@ reduce(const std::array<mpz_class, N>& f,
   fft::adj_poly<log2<N>()>(f_adjoint);
   fft::adj_poly<log2<N>()>(g_adjoint);
 
+  mpz_class prev_kmax{ 0 };
+
   while (1) {
     const std::pair<mpz_class, mpz_class> Fmm = min_max(F);
     const std::pair<mpz_class, mpz_class> Gmm = min_max(G);
@@ -418,28 +420,29 @@ reduce(const std::array<mpz_class, N>& f,
     polynomial::div<log2<N>()>(FfGg_add, ffgg_add, k);
     fft::ifft<log2<N>()>(k);
 
-    signed long k_rounded[N];
+    // The quotient must get smaller with every step ( at least by a quarter, as
+    // a step leaves half a unit of it ). It doesn't, when f, g are so
+    // ill-conditioned that double precision can't tell it - then it's over.
+    std::array<mpz_class, N> k_mpz;
+    mpz_class kmax{ 0 };
+
     for (size_t i = 0; i < N; i++) {
       // ties ( also if off by an error of the FFT ) are rounded towards zero, so
       // that no step undoes the previous one
       const double v = k[i].real();
-      const double v_ = std::round(v - std::copysign(1e-9, v));
-      k_rounded[i] = static_cast<signed long>(v_);
-    }
+      if (!std::isfinite(v)) {
+        return;
+      }
 
-    bool atleast_one_nonzero = false;
-    for (size_t i = 0; i < N; i++) {
-      atleast_one_nonzero |= k_rounded[i] != 0;
+      k_mpz[i] = mpz_class(std::round(v - std::copysign(1e-9, v)));
+      kmax = std::max(kmax, mpz_class(abs(k_mpz[i])));
     }
 
-    if (!atleast_one_nonzero) {
+    kmax = kmax << (blen1 - blen0);
+    if (kmax == 0 || (prev_kmax != 0 && 4 * kmax > 3 * prev_kmax)) {
       break;
     }
-
-    std::array<mpz_class, N> k_mpz;
-    for (size_t i = 0; i < N; i++) {
-      k_mpz[i] = mpz_class(k_rounded[i]);
-    }
+    prev_kmax = kmax;
 
     const std::array<mpz_class, N> fk = karatsuba::karamul(f, k_mpz);
     const std::array<mpz_class, N> gk = karatsuba::karamul(g, k_mpz);
-- 
2.43.0


From a19804e1322fb6e32b54e7368cc7e288ce121fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 12/12] fix: don't read random bytes past the end of the array
 in samplerz

---
 include/samplerz.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index d9cc3a1..a1338f9 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -376,7 +376,8 @@ samplerz(const double μ,
   size_t ridx = 0;
   int32_t ret_z = 0;
 
-  while (ridx < rblen) {
+  // an attempt consumes 11 bytes at least
+  while (ridx + 11 <= rblen) {
     std::array<uint8_t, 9> tmp{};
     std::memcpy(tmp.data(), rbytes + ridx, 9);
     std::reverse(tmp.begin(), tmp.end());
-- 
2.43.0

