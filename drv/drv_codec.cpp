// Encodings of keys and signatures (C04, C05, C06), guarded buffers.
#include "drv.hpp"
#include "common.hpp"
#include "ff.hpp"
#include "encoding.hpp"
#include "decoding.hpp"
#include "utils.hpp"
#include <fstream>
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
using Ints = std::vector<int32_t>;
static void ok(bool b) { if (!b) raise(SIGABRT); }
static void setbits(Bytes& b, size_t at, unsigned w, uint32_t v) // LSB-first field
{
  for (unsigned t = 0; t < w; t++) {
    const size_t k = at + t;
    b[k >> 3] = static_cast<uint8_t>((b[k >> 3] & ~(1u << (k & 7))) | (((v >> t) & 1u) << (k & 7)));
  }
}

template<size_t N>
struct Run
{
  static constexpr size_t PK = 1 + N * 14 / 8, W = N == 512 ? 6 : 5, SK = 1 + 2 * (N * W / 8) + N, SG = N == 512 ? 666 : 1280;
  static constexpr int MX = (1 << (W - 1)) - 1;
  drv::Rng& rng;

  // ------------------------------------------------ public keys
  static Bytes pkenc(const std::vector<uint16_t>& h)
  {
    Guard<ff::ff_t> p(N);
    Guard<uint8_t> b(PK);
    for (size_t i = 0; i < N; i++) p[i].v = h[i];
    b.fill(0x5a);
    J j; j.kv("op", "pkenc").kva("hp", h.data(), N); drv::call(j);
    encoding::encode_pkey<N>(p.p, b.p);
    J r; r.kva("b", b.p, PK).kvb("mem", b.intact() && p.intact());
    drv::ret(r);
    return Bytes(b.p, b.p + PK);
  }
  static void pkdec(const Bytes& in)
  {
    Guard<ff::ff_t> p(N);
    Guard<uint8_t> b(PK);
    std::copy(in.begin(), in.end(), b.p);
    std::memset(static_cast<void*>(p.p), 0xff, N * sizeof(ff::ff_t));
    J j; j.kv("op", "pkdec").kva("b", in.data(), PK); drv::call(j);
    const bool o = decoding::decode_pkey<N>(b.p, p.p);
    J r; r.kvb("ok", o).kvb("mem", b.intact() && p.intact() && !std::memcmp(b.p, in.data(), PK));
    if (o) { std::vector<int> v(N); for (size_t i = 0; i < N; i++) v[i] = p[i].v; r.kva("hp", v.data(), N); }
    drv::ret(r);
  }
  void pk(long k)
  {
    std::vector<uint16_t> h(N);
    auto pos = [&](size_t i) { return (i * 7 + static_cast<size_t>(k)) % N; };
    for (long t = 0; t < 12 * k; t++) {
      for (size_t i = 0; i < N; i++) h[i] = static_cast<uint16_t>(t == 0 ? 0 : t == 1 ? 12288 : t == 2 ? (i % 2 ? 12288 : 0) : t == 3 ? i : t == 4 ? 1u << (i % 14) & 8191 : t == 5 ? 8191 + i : rng.below(12289));
      drv::begin("pk");
      const Bytes e = pkenc(h);
      pkdec(e);
      // one byte or bit off
      for (long u = 0; u < 24; u++) {
        Bytes m = e;
        const size_t at = u == 0 ? 0 : rng.below(PK);
        if (u % 2) m[at] ^= static_cast<uint8_t>(1u << rng.below(8)); else m[at] = static_cast<uint8_t>(rng.next());
        pkdec(m);
      }
      drv::end();
    }
    // every coefficient at and around q and at the largest field
    for (size_t i = 0; i < N; i += k > 1 ? 1 : 3) {
      drv::begin("pkfield");
      Bytes e(PK);
      e[0] = N == 512 ? 9 : 10;
      for (size_t x = 0; x < N; x++) setbits(e, 8 + 14 * x, 14, static_cast<uint32_t>(rng.below(12289)));
      for (uint32_t v : { 12288u, 12289u, 16383u, static_cast<uint32_t>(12289 + rng.below(4095)) }) { Bytes m = e; setbits(m, 8 + 14 * pos(i), 14, v); pkdec(m); }
      if (i % 16 == 0) { Bytes m = e; setbits(m, 8 + 14 * pos(i), 14, 12289); setbits(m, 8 + 14 * rng.below(N), 14, 12289); pkdec(m); }
      drv::end();
    }
    // headers
    drv::begin("pkhead");
    for (int x = 0; x < 256; x++) { Bytes m(PK); m[0] = static_cast<uint8_t>(x); pkdec(m); }
    drv::end();
    // random and extreme strings
    drv::begin("pkrandom");
    for (long t = 0; t < 8 * k; t++) {
      Bytes m(PK);
      if (t % 4 == 0) std::fill(m.begin(), m.end(), 0xff); else if (t % 4 == 1) std::fill(m.begin(), m.end(), 0); else rng.bytes(m.data(), PK);
      if (t % 4 != 2) m[0] = N == 512 ? 9 : 10;
      pkdec(m);
    }
    drv::end();
  }

  // ------------------------------------------------ secret keys
  static Bytes skenc(const Ints& f, const Ints& g, const Ints& F)
  {
    Guard<int32_t> a(N), c(N), d(N);
    Guard<uint8_t> b(SK);
    std::copy(f.begin(), f.end(), a.p); std::copy(g.begin(), g.end(), c.p); std::copy(F.begin(), F.end(), d.p);
    b.fill(0x5a);
    J j; j.kv("op", "skenc").kva("f", f.data(), N).kva("g", g.data(), N).kva("F", F.data(), N); drv::call(j);
    encoding::encode_skey<N>(a.p, c.p, d.p, b.p);
    J r; r.kva("b", b.p, SK).kvb("mem", b.intact() && a.intact() && c.intact() && d.intact());
    drv::ret(r);
    return Bytes(b.p, b.p + SK);
  }
  static void skdec(const Bytes& in)
  {
    Guard<int32_t> a(N), c(N), d(N);
    Guard<uint8_t> b(SK);
    std::copy(in.begin(), in.end(), b.p);
    a.fill(0x77); c.fill(0x77); d.fill(0x77);
    J j; j.kv("op", "skdec").kva("b", in.data(), SK); drv::call(j);
    const bool o = decoding::decode_skey<N>(b.p, a.p, c.p, d.p);
    J r; r.kvb("ok", o).kvb("mem", b.intact() && a.intact() && c.intact() && d.intact() && !std::memcmp(b.p, in.data(), SK));
    if (o) r.kva("f", a.p, N).kva("g", c.p, N).kva("F", d.p, N);
    drv::ret(r);
  }
  Bytes skrandom()
  {
    Bytes e(SK);
    e[0] = static_cast<uint8_t>(0x50 | (N == 512 ? 9 : 10));
    for (size_t x = 0; x < 2 * N; x++) { uint32_t v; do v = static_cast<uint32_t>(rng.below(1u << W)); while (v == (1u << (W - 1))); setbits(e, 8 + W * x, W, v); }
    for (size_t x = 0; x < N; x++) { uint8_t v; do v = static_cast<uint8_t>(rng.next()); while (v == 0x80); e[1 + 2 * (N * W / 8) + x] = v; }
    return e;
  }
  void sk(long k)
  {
    Ints f(N), g(N), F(N);
    for (long t = 0; t < 12 * k; t++) {
      for (size_t i = 0; i < N; i++) switch (t) {
        case 0: f[i] = MX; g[i] = -MX; F[i] = 127; break;
        case 1: f[i] = -MX; g[i] = MX; F[i] = -127; break;
        case 2: f[i] = i % 2 ? -1 : 0; g[i] = i % 2 ? 0 : -1; F[i] = i % 3 ? -1 : 0; break;
        case 3: f[i] = static_cast<int>(i % (2 * MX + 1)) - MX; g[i] = MX - static_cast<int>(i % (2 * MX + 1)); F[i] = static_cast<int>(i % 255) - 127; break;
        case 4: f[i] = g[i] = F[i] = 0; break;
        default: f[i] = static_cast<int>(rng.range(-MX, MX)); g[i] = static_cast<int>(rng.range(-MX, MX)); F[i] = static_cast<int>(rng.range(-127, 127));
      }
      drv::begin("sk");
      const Bytes e = skenc(f, g, F);
      skdec(e);
      for (long u = 0; u < 12; u++) {
        Bytes m = e;
        const size_t at = u == 0 ? 0 : rng.below(SK);
        if (u % 2) m[at] ^= static_cast<uint8_t>(1u << rng.below(8)); else m[at] = static_cast<uint8_t>(rng.next());
        skdec(m);
      }
      drv::end();
    }
    // forbidden value and its neighbours in fields of f, g, F
    for (size_t i = 0; i < N; i += k > 1 ? 1 : 5) {
      drv::begin("skfield");
      const Bytes e = skrandom();
      const size_t p = (i * 3 + 1) % N;
      Bytes m = e; setbits(m, 8 + W * p, W, 1u << (W - 1)); skdec(m);
      m = e; setbits(m, 8 + W * (N + p), W, 1u << (W - 1)); skdec(m);
      m = e; m[1 + 2 * (N * W / 8) + p] = 0x80; skdec(m);
      m = e; setbits(m, 8 + W * p, W, (1u << (W - 1)) + 1); setbits(m, 8 + W * (N + p), W, (1u << (W - 1)) - 1); m[1 + 2 * (N * W / 8) + p] = i % 2 ? 0x81 : 0x7f; skdec(m);
      drv::end();
    }
    drv::begin("skhead");
    const Bytes e = skrandom();
    for (int x = 0; x < 256; x += k > 1 ? 1 : 1) { if (k == 1 && x % 16 != 0 && (x < 0x48 || x > 0x5f)) continue; Bytes m = e; m[0] = static_cast<uint8_t>(x); skdec(m); }
    drv::end();
    drv::begin("skrandom");
    for (long t = 0; t < 8 * k; t++) {
      Bytes m(SK);
      if (t % 4 == 0) std::fill(m.begin(), m.end(), 0xff); else if (t % 4 == 1) std::fill(m.begin(), m.end(), 0); else rng.bytes(m.data(), SK);
      if (t % 4 != 2) m[0] = e[0];
      skdec(m);
    }
    drv::end();
  }

  // ------------------------------------------------ signatures
  struct Bits
  {
    Bytes b = Bytes(SG - 41); size_t n = 0, cap = 8 * (SG - 41);
    void put(unsigned v) { if (n < cap && v) b[n >> 3] |= static_cast<uint8_t>(0x80u >> (n & 7)); n++; }
    void coef(long c, bool negzero = false)
    {
      const unsigned long a = static_cast<unsigned long>(std::labs(c));
      put(c < 0 || negzero);
      for (int i = 6; i >= 0; i--) put((a >> i) & 1);
      for (unsigned long i = 0; i < a >> 7; i++) put(0);
      put(1);
    }
  };
  static void comp(const Ints& s)
  {
    Guard<int32_t> a(N);
    Guard<uint8_t> b(SG);
    std::copy(s.begin(), s.end(), a.p);
    b.fill(0x5a);
    J j; j.kv("op", "comp").kva("s", s.data(), N); drv::call(j);
    const bool o = encoding::compress_sig<N, SG>(a.p, b.p);
    bool head = true;
    for (size_t i = 0; i < 41; i++) head &= b[i] == 0x5a;
    J r; r.kvb("ok", o).kvb("mem", head && b.intact() && a.intact() && !std::memcmp(a.p, s.data(), 4 * N));
    if (o) r.kva("b", b.p + 41, SG - 41);
    drv::ret(r);
  }
  void dec(const Bytes& body, int header = -1)
  {
    Guard<int32_t> s(N), s2(N);
    Guard<uint8_t> b(SG), salt(40);
    b[0] = static_cast<uint8_t>(header < 0 ? 0x30 | (N == 512 ? 9 : 10) : header);
    rng.bytes(b.p + 1, 40);
    std::copy(body.begin(), body.end(), b.p + 41);
    const Bytes in(b.p, b.p + SG);
    s.fill(0x77); s2.fill(0x77); salt.fill(0x77);
    J j; j.kv("op", "dec").kva("b", in.data(), SG); drv::call(j);
    const bool o1 = decoding::decode_sig<N>(b.p, salt.p, s.p);
    const bool o2 = decoding::decompress_sig<N, SG>(b.p, s2.p);
    J r; r.kvb("ok", o1).kvb("ok2", o2).kvb("mem", b.intact() && salt.intact() && s.intact() && s2.intact() && !std::memcmp(b.p, in.data(), SG));
    if (o1) r.kva("s", s.p, N).kva("salt", salt.p, 40);
    if (o2) r.kva("s2", s2.p, N);
    drv::ret(r);
  }
  void small(Ints& s, int m = 127) { for (auto& x : s) x = static_cast<int>(rng.range(-m, m)); }
  static constexpr long SLACK = 8 * (SG - 41) - 9 * static_cast<long>(N);
  // polynomial whose encoding leaves `slack` bits, long parts at `where`
  Ints fit(long slack, const std::string& where)
  {
    Ints s(N);
    small(s);
    long u = SLACK - slack;
    auto add = [&](size_t i, long k) { s[i] += s[i] < 0 ? static_cast<int>(-128 * k) : static_cast<int>(128 * k); };
    if (where == "first") add(0, u);
    else if (where == "last") add(N - 1, u);
    else if (where == "two") { add(rng.below(N / 2), u / 2); add(N / 2 + rng.below(N / 2), u - u / 2); }
    else while (u > 0) { const long k = std::min<long>(u, 1 + static_cast<long>(rng.below(3))); add(rng.below(N), k); u -= k; }
    return s;
  }
  void sig(long k, const char* scen)
  {
    // compression around the exact fit
    for (long slack : { 0, 1, -1, 2, -2, 7, -7, 8, -8, 9, 100, -100, 300, -10000 })
      for (const char* w : { "first", "last", "spread", "two" }) {
        drv::begin("fit");
        comp(fit(slack, w));
        drv::end();
      }
    // coefficients of any size
    for (long t = 0; t < 40 * k; t++) {
      Ints s(N);
      small(s, t % 3 == 0 ? 127 : 200);
      const size_t p = t % 5 == 0 ? 0 : t % 5 == 1 ? N - 1 : rng.below(N);
      const int64_t huge[] = { INT32_MAX, INT32_MIN, INT32_MIN + 1, 1 << 20, -(1 << 20), 65536, -65536, 1 << 24, 12289, -12289, 2047, -2048, 50176, 89087, 50175, 1 << 30 };
      s[p] = static_cast<int32_t>(huge[t % 16]);
      if (t % 7 == 3) for (auto& x : s) x = static_cast<int32_t>(rng.next());
      if (t % 7 == 4) for (auto& x : s) x = static_cast<int32_t>(rng.range(-12288, 12288));
      if (t % 7 == 5) for (auto& x : s) x = t % 2 ? INT32_MIN : INT32_MAX;
      drv::begin("size"); comp(s); drv::end();
    }
    // every unary length, with chosen low bits and both signs
    {
      std::vector<int> all;
      const std::vector<int> lows = k > 1 ? std::vector<int>{ 0, 1, 63, 64, 126, 127 } : N == 512 ? std::vector<int>{ 0, 127 } : std::vector<int>{ 0 };
      const long step = k > 1 || N == 512 ? 1 : 3;
      for (long u = step == 1 ? 0 : static_cast<long>(rng.below(3)); u <= SLACK; u += step)
        for (int l : lows) for (int sg : { 1, -1 }) if (u || l) all.push_back(sg * static_cast<int>(128 * u + l));
      for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[rng.below(i)]);
      std::vector<bool> used(all.size());
      for (size_t first = 0; first < all.size(); first++) {
        if (used[first]) continue;
        Ints s(N);
        long room = SLACK;
        for (size_t j = first, tries = 0; j < all.size() && tries < 400; j++, tries++) {
          const long u = std::abs(all[j]) >> 7;
          if (used[j] || u > room) continue;
          const size_t at = rng.below(N);
          if (s[at]) continue;
          s[at] = all[j]; used[j] = true; room -= u;
        }
        for (auto& x : s) if (!x && rng.coin()) x = static_cast<int>(rng.range(-127, 127));
        Bits b;
        for (int x : s) b.coef(x);
        drv::begin("sweep"); comp(s); dec(b.b); drv::end();
      }
    }
    // typical
    for (long t = 0; t < 8 * k; t++) {
      Ints s(N);
      for (auto& x : s) { double z = 0; for (int i = 0; i < 12; i++) z += rng.unit() - 0.5; x = static_cast<int>(std::lround(z * 165)); }
      if (t % 4 == 0) std::fill(s.begin(), s.end(), 0);
      drv::begin("typical");
      comp(s);
      Bits b;
      for (int x : s) b.coef(x);
      dec(b.b);
      for (int u = 0; u < 12; u++) { Bytes m = b.b; m[rng.below(m.size())] ^= static_cast<uint8_t>(1u << rng.below(8)); dec(m); }
      for (int u = 0; u < 4; u++) { Bytes m = b.b; m[rng.below(m.size())] = static_cast<uint8_t>(rng.next()); dec(m); }
      drv::end();
    }
    // scenarios of GenSig
    if (scen) {
      std::ifstream in(scen);
      std::string line;
      while (std::getline(in, line)) {
        auto get = [&](const char* key) { const size_t a = line.find(key) + std::strlen(key) + 2; size_t e = line.find_first_of(",}", a); std::string v = line.substr(a, e - a); return v[0] == '"' ? v.substr(1, v.size() - 2) : v; };
        const long slack = std::stol(get("slack")), zero = std::stol(get("zero")), trail = std::stol(get("trail"));
        const std::string where = get("where");
        Ints s = where == "small" ? Ints(N) : fit(slack, where);
        if (where == "small") small(s);
        Bits b;
        const size_t z = zero == 511 ? N - 1 : zero == -1 ? rng.below(N) : zero == -2 ? N + 1 : static_cast<size_t>(zero);
        for (size_t i = 0; i < N; i++) {
          const bool nz = z == i + 1 || (zero == 511 && i == N - 1);
          if (nz) { // keeps the unary length: -0 has none
            const long h = std::labs(s[i]) >> 7;
            b.coef(0, true);
            for (long x = 0; x < h && i + 1 < N; x++) s[i + 1] += s[i + 1] < 0 ? -128 : 128;
          } else b.coef(s[i]);
        }
        if (trail >= 0) {
          const size_t at = trail == 999 ? b.cap - 1 : b.n + static_cast<size_t>(trail);
          if (at < b.cap) { b.b[at >> 3] |= static_cast<uint8_t>(0x80u >> (at & 7)); }
        }
        drv::begin("scen"); dec(b.b); drv::end();
      }
    }
    // every position of a single pad bit near the end of a short encoding
    {
      Ints s(N); small(s);
      Bits b; for (int x : s) b.coef(x);
      for (size_t at = b.n; at < b.cap; at += k > 1 ? 1 : 13) { Bytes m = b.b; m[at >> 3] |= static_cast<uint8_t>(0x80u >> (at & 7)); drv::begin("pad"); dec(m); drv::end(); }
    }
    // truncated polynomials: too few coefficients, zero filled
    for (size_t miss : { size_t(1), size_t(2), size_t(8), N / 2, N - 1, N }) {
      Bits b; Ints s(N); small(s);
      for (size_t i = 0; i + miss < N; i++) b.coef(s[i]);
      drv::begin("missing"); dec(b.b); b.put(1); dec(b.b); drv::end();
    }
    // any bit pattern
    for (long t = 0; t < 30 * k; t++) {
      Bytes m(SG - 41);
      switch (t % 5) {
        case 0: rng.bytes(m.data(), m.size()); break;
        case 1: std::fill(m.begin(), m.end(), static_cast<uint8_t>(t == 1 ? 0xff : t == 6 ? 0 : rng.next())); break;
        case 2: for (auto& x : m) x = static_cast<uint8_t>(rng.next() & rng.next() & rng.next()); break;
        case 3: for (auto& x : m) x = static_cast<uint8_t>(rng.next() | rng.next()); break;
        default: // positive small coefficients then garbage
          rng.bytes(m.data(), m.size());
          { Bits b; Ints s(N); small(s); const size_t c = rng.below(N); for (size_t i = 0; i < c; i++) b.coef(s[i]); for (size_t i = 0; i < b.n; i++) { const uint8_t q = static_cast<uint8_t>(0x80u >> (i & 7)); m[i >> 3] = static_cast<uint8_t>((m[i >> 3] & ~q) | (b.b[i >> 3] & q)); } }
      }
      drv::begin("pattern"); dec(m); drv::end();
    }
    // headers
    {
      Ints s(N); small(s);
      Bits b; for (int x : s) b.coef(x);
      drv::begin("head");
      for (int x = 0; x < 256; x++) { if (k == 1 && x % 16 != 5 && (x < 0x28 || x > 0x3f)) continue; dec(b.b, x); }
      drv::end();
    }
  }
  void go(const std::string& what, long k, const char* scen)
  {
    J h; h.kv("n", N); drv::head(h);
    if (what == "pk") pk(k); else if (what == "sk") sk(k); else sig(k, scen);
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  const std::string what = drv::opt(argc, argv, "--what", "pk");
  const long k = drv::opti(argc, argv, "--k", 1);
  const char* scen = drv::opt(argc, argv, "--scen", nullptr);
  Run<512>{ rng }.go(what, k, scen);
  Run<1024>{ rng }.go(what, k, scen);
  return drv::close();
}
