#pragma once
// Key pairs of the corpus (f, g, F, G), with serializations made here and not
// by the code under test.
#include "drv.hpp"
#include <cstdio>
#include <cstdlib>
#include <libgen.h>

namespace keys {
inline constexpr int Q = 12289;

template<size_t N>
struct Key
{
  static constexpr size_t PK = 1 + N * 14 / 8, W = N == 512 ? 6 : 5, SK = 1 + 2 * (N * W / 8) + N, SG = N == 512 ? 666 : 1280;
  int32_t f[N], g[N], F[N], G[N];
  uint16_t h[N];
  std::vector<uint8_t> pk, sk;
};

inline int64_t pw(int64_t b, int64_t e) { int64_t r = 1; for (b %= Q; e; e >>= 1, b = b * b % Q) if (e & 1) r = r * b % Q; return r; }

inline void field(std::vector<uint8_t>& b, size_t at, unsigned w, uint32_t v)
{
  for (unsigned t = 0; t < w; t++) if ((v >> t) & 1u) b[(at + t) >> 3] |= static_cast<uint8_t>(1u << ((at + t) & 7));
}

template<size_t N>
std::vector<uint8_t> enc_pk(const uint16_t* h)
{
  std::vector<uint8_t> b(Key<N>::PK);
  b[0] = N == 512 ? 9 : 10;
  for (size_t i = 0; i < N; i++) field(b, 8 + 14 * i, 14, h[i]);
  return b;
}
template<size_t N>
std::vector<uint8_t> enc_sk(const int32_t* f, const int32_t* g, const int32_t* F)
{
  constexpr unsigned W = Key<N>::W;
  std::vector<uint8_t> b(Key<N>::SK);
  b[0] = 0x50 | (N == 512 ? 9 : 10);
  for (size_t i = 0; i < N; i++) {
    field(b, 8 + W * i, W, static_cast<uint32_t>(f[i]) & ((1u << W) - 1));
    field(b, 8 + W * (N + i), W, static_cast<uint32_t>(g[i]) & ((1u << W) - 1));
    field(b, 8 + W * 2 * N + 8 * i, 8, static_cast<uint32_t>(F[i]) & 255);
  }
  return b;
}

// h = g / f mod (q, x^N + 1) by evaluation at all roots; false if f is not invertible
template<size_t N>
bool divide(const int32_t* g, const int32_t* f, uint16_t* h)
{
  static std::vector<int64_t> root; // odd powers of a primitive 2N-th root
  static std::vector<int32_t> ptab; // ptab[k] = z^k
  if (root.empty()) {
    const int64_t z = pw(11, (Q - 1) / (2 * N));
    ptab.resize(2 * N);
    int64_t t = 1;
    for (size_t i = 0; i < 2 * N; i++) { ptab[i] = static_cast<int32_t>(t); t = t * z % Q; }
    root.resize(1);
  }
  std::vector<int64_t> e(N);
  for (size_t j = 0; j < N; j++) {
    int64_t a = 0, b = 0;
    for (size_t i = 0; i < N; i++) { const int64_t r = ptab[((2 * j + 1) * i) % (2 * N)]; a += r * f[i]; b += r * g[i]; }
    a %= Q; if (a < 0) a += Q;
    b %= Q; if (b < 0) b += Q;
    if (!a) return false;
    e[j] = b * pw(a, Q - 2) % Q;
  }
  const int64_t ni = pw(static_cast<int64_t>(N), Q - 2);
  for (size_t i = 0; i < N; i++) {
    int64_t a = 0;
    for (size_t j = 0; j < N; j++) a += e[j] * ptab[(2 * N - ((2 * j + 1) * i) % (2 * N)) % (2 * N)];
    h[i] = static_cast<uint16_t>(a % Q * ni % Q);
  }
  return true;
}

// s * h mod (q, x^N+1), s any integers
template<size_t N>
std::vector<int> mul(const int32_t* s, const uint16_t* h)
{
  std::vector<int64_t> o(N);
  for (size_t i = 0; i < N; i++) {
    const int64_t a = s[i] % Q;
    if (!a) continue;
    for (size_t j = 0; j < N; j++) { const size_t k = i + j; if (k < N) o[k] += a * h[j]; else o[k - N] -= a * h[j]; }
  }
  std::vector<int> r(N);
  for (size_t i = 0; i < N; i++) { int64_t v = o[i] % Q; r[i] = static_cast<int>(v < 0 ? v + Q : v); }
  return r;
}

inline std::string dir(const char* argv0)
{
  const char* d = std::getenv("CORPUS");
  if (d) return d;
  return std::string("/verif/corpus") + (argv0 ? "" : "");
}

template<size_t N>
std::vector<Key<N>> load(size_t max, size_t skip = 0, const char* set = "keys")
{
  const std::string p = dir(nullptr) + "/" + set + (N == 512 ? "512.bin" : "1024.bin");
  FILE* f = std::fopen(p.c_str(), "rb");
  if (!f) { std::perror(p.c_str()); std::exit(2); }
  std::vector<Key<N>> out;
  std::vector<int16_t> b(4 * N);
  std::vector<std::vector<int16_t>> all;
  while (std::fread(b.data(), 2, 4 * N, f) == 4 * N) all.push_back(b);
  // the corpus is a ring
  for (size_t at = skip; out.size() < max && out.size() < all.size(); at++) {
    b = all[at % all.size()];
    out.emplace_back();
    Key<N>& k = out.back();
    for (size_t i = 0; i < N; i++) { k.f[i] = b[i]; k.g[i] = b[N + i]; k.F[i] = b[2 * N + i]; k.G[i] = b[3 * N + i]; }
    if (!divide<N>(k.g, k.f, k.h)) std::exit(2);
    k.pk = enc_pk<N>(k.h);
    k.sk = enc_sk<N>(k.f, k.g, k.F);
  }
  std::fclose(f);
  if (out.empty()) std::exit(2);
  return out;
}
} // namespace keys
