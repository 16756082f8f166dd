// Wide-integer helpers (C15).
#include "drv.hpp"
#include "u72.hpp"
#include "common.hpp"
#include "prng.hpp"
#include <algorithm>
#ifdef WITH_INT128 // the branch of the 64x64 product meant for aarch64
#define __aarch64__ 1
#endif
#include "samplerz.hpp"
#ifdef WITH_INT128
#undef __aarch64__
#endif
using u72::u72_t;
using U = unsigned __int128;

static mpz_class big(U v)
{
  mpz_class r(static_cast<unsigned long>(v >> 64));
  r <<= 64;
  return r + mpz_class(static_cast<unsigned long>(v));
}
static U val(const u72_t& x) { return (static_cast<U>(x.hi) << 64) | x.lo; }
static u72_t mk(U v) { return u72_t{ static_cast<uint64_t>(v >> 64) & 0xff, static_cast<uint64_t>(v) }; }
static void list(drv::J& j, const char* k, const std::vector<U>& v)
{
  j.key(k).raw("[");
  for (size_t i = 0; i < v.size(); i++) { if (i) j.raw(","); j.big(big(v[i])); }
  j.raw("]");
}

static void pairs(const std::vector<std::pair<U, U>>& p)
{
  std::vector<U> a, b, add, sub, neg;
  std::vector<int> cmp;
  for (auto [x, y] : p) {
    const u72_t u = mk(x), v = mk(y);
    a.push_back(val(u)); b.push_back(val(v));
    add.push_back(val(u + v)); sub.push_back(val(u - v)); neg.push_back(val(-u));
    cmp.push_back((u > v) + 2 * (u < v));
  }
  drv::J j; j.kv("op", "u72");
  list(j, "a", a); list(j, "b", b); list(j, "add", add); list(j, "sub", sub); list(j, "neg", neg);
  j.kva("cmp", cmp.data(), cmp.size());
  drv::single("u72", j);
}
static void bytes(const std::array<uint8_t, 9>& b, uint64_t hi, uint64_t lo)
{
  drv::J j; j.kv("op", "bytes").kva("b", b.data(), 9);
  auto t = b; j.key("be").big(big(val(u72_t::from_be_bytes(std::move(t)))));
  t = b; j.key("le").big(big(val(u72_t::from_le_bytes(std::move(t)))));
  const u72_t v{ hi, lo };
  j.key("v").big(big(val(v)));
  const auto x = v.to_be_bytes(), y = v.to_le_bytes();
  j.kva("tobe", x.data(), 9).kva("tole", y.data(), 9);
  drv::event(j);
}
#ifdef NO_INTERNALS
static void muls(const std::vector<std::pair<uint64_t, uint64_t>>&) {}
static void tops(const std::vector<U>&) {}
#else
static void muls(const std::vector<std::pair<uint64_t, uint64_t>>& p)
{
  std::vector<U> a, b, r;
  for (auto [x, y] : p) {
    const auto m = samplerz::full_mul_u64(x, y);
    a.push_back(x); b.push_back(y);
    r.push_back((static_cast<U>(m.first) << 64) | m.second);
  }
  drv::J j; j.kv("op", "mul"); list(j, "a", a); list(j, "b", b); list(j, "r", r);
  drv::single("mul", j);
}
static void tops(const std::vector<U>& p)
{
  std::vector<U> r;
  for (U v : p) r.push_back(samplerz::top_63_bits({ static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v) }));
  drv::J j; j.kv("op", "top"); list(j, "a", p); list(j, "r", r);
  drv::single("top", j);
}

#endif

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  const long n = drv::opti(argc, argv, "--n", 4000);
  const U M = (static_cast<U>(1) << 72) - 1;
  auto lohi = [&] { return std::pair{ rng.next(), rng.next() }; };
  // sparse / dense / structured values
  auto gen = [&](unsigned bits) -> U {
    auto [x, y] = lohi();
    U v = (static_cast<U>(x) << 64) | y, m = bits == 128 ? ~static_cast<U>(0) : (static_cast<U>(1) << bits) - 1;
    switch (rng.below(8)) {
      case 0: v = static_cast<U>(1) << rng.below(bits); break;
      case 1: v = (static_cast<U>(1) << rng.below(bits)) - 1; break;
      case 2: v = ~((static_cast<U>(1) << rng.below(bits)) - 1); break;
      case 3: v &= v << 1 & v << 3; break;
      case 4: v |= v << 1 | v >> 2; break;
      case 5: v &= ~static_cast<U>(0xffffffffull << (32 * rng.below(2))); break;
      default: break;
    }
    if (rng.coin(4)) v += rng.below(5);
    if (rng.coin(4)) v -= rng.below(5);
    return v & m;
  };
  std::vector<U> grid;
  for (uint64_t hi : { 0x00ull, 0x01ull, 0x02ull, 0x7full, 0x80ull, 0xfeull, 0xffull })
    for (uint64_t lo : { 0ull, 1ull, 2ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull })
      grid.push_back((static_cast<U>(hi) << 64) | lo);
  std::vector<std::pair<U, U>> ps;
  auto put = [&](U a, U b) { ps.push_back({ a & M, b & M }); if (ps.size() == 256) { pairs(ps); ps.clear(); } };
  for (U a : grid) for (U b : grid) put(a, b);
  for (long i = 0; i < n; i++) {
    const U a = gen(72);
    U b = gen(72);
    switch (rng.below(8)) {
      case 0: b = a; break;
      case 1: b = a + rng.below(3) - 1; break;
      case 2: b = (a & ~static_cast<U>(~0ull)) | (b & ~0ull); break; // same high part
      case 3: b = (b & ~static_cast<U>(~0ull)) | (a & ~0ull); break; // same low part
      case 4: b = M + 1 - a; break;
      case 5: b = M - a; break;
      default: break;
    }
    put(a, b);
  }
  if (!ps.empty()) pairs(ps);

  drv::begin("bytes");
  for (long i = 0; i < n / 4; i++) {
    std::array<uint8_t, 9> b{};
    if (i < 72) b[static_cast<size_t>(i / 8)] = static_cast<uint8_t>(1u << (i % 8));
    else if (i < 81) b[static_cast<size_t>(i - 72)] = 0xff;
    else rng.bytes(b.data(), 9);
    U v = i < 72 ? static_cast<U>(1) << i : gen(72);
    bytes(b, static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v));
    if (i % 100 == 99) { drv::end(); drv::begin("bytes"); }
  }
  drv::end();

  std::vector<std::pair<uint64_t, uint64_t>> ms;
  auto putm = [&](uint64_t a, uint64_t b) { ms.push_back({ a, b }); if (ms.size() == 256) { muls(ms); ms.clear(); } };
  const uint64_t mg[]{ 0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x1ffffffff, 0x7fffffff00000000, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000080000000, 0xfffffffeffffffff, 0xffffffff00000000, 0xffffffff00000001, 0xfffffffffffffffe, 0xffffffffffffffff };
  for (uint64_t a : mg) for (uint64_t b : mg) putm(a, b);
  for (int i = 0; i < 64; i++) for (int k = 0; k < 64; k++) putm((1ull << i) - (k % 3 == 0), (1ull << k) + (i % 3 == 0));
  for (long i = 0; i < n; i++) putm(static_cast<uint64_t>(gen(64)), static_cast<uint64_t>(gen(64)));
  if (!ms.empty()) muls(ms);

  std::vector<U> ts;
  for (int i = 0; i < 126; i++) { const U b = static_cast<U>(1) << i; ts.push_back(b); ts.push_back(b - 1); }
  ts.push_back((static_cast<U>(1) << 126) - 1);
  tops(ts);
  ts.clear();
  for (long i = 0; i < n; i++) { ts.push_back(gen(126)); if (ts.size() == 256) { tops(ts); ts.clear(); } }
  return drv::close();
}
