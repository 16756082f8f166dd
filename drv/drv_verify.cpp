// Verification (C02): verdicts on honest, constructed, mutated and malformed
// inputs; the XOF is scripted, so the hashed polynomial can be anything.
#include "drv.hpp"
#include "keys.hpp"
#include "falcon.hpp"
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
using Poly = std::vector<int>;
namespace env = shake256::env;

struct Seen
{
  Bytes absorbed, xof;
  size_t inst = 0;
  uint64_t last = 0;
  static void hook(void* a, env::kind_t k, uint64_t id, bool prng, const uint8_t* p, size_t n)
  {
    auto& s = *static_cast<Seen*>(a);
    if (prng) return;
    if (id != s.last) { s.last = id; s.inst++; }
    if (k == env::ABSORB) s.absorbed.insert(s.absorbed.end(), p, p + n);
    else if (k == env::READ) s.xof.insert(s.xof.end(), p, p + n);
  }
};

template<size_t N>
struct Run
{
  using K = keys::Key<N>;
  static constexpr size_t SG = K::SG;
  static constexpr int64_t B2 = N == 512 ? 34034726 : 70265242;
  drv::Rng& rng;
  std::vector<K> ks;

  Bytes msg(size_t n) { Bytes m(n); rng.bytes(m.data(), n); return m; }
  double normal() { return std::sqrt(-2 * std::log(1 - rng.unit())) * std::cos(2 * M_PI * rng.unit()); }

  // the encoding, made here; empty if it does not fit
  static Bytes sig_of(const Bytes& salt, const Poly& s2, bool cut = false)
  {
    Bytes b(SG);
    b[0] = static_cast<uint8_t>(0x30 | (N == 512 ? 9 : 10));
    std::copy(salt.begin(), salt.end(), b.begin() + 1);
    size_t at = 41 * 8;
    auto bit = [&](unsigned v) { if (at < 8 * SG && v) b[at >> 3] |= static_cast<uint8_t>(0x80u >> (at & 7)); at++; };
    for (int c : s2) {
      const unsigned a = static_cast<unsigned>(c < 0 ? -c : c);
      bit(c < 0);
      for (int t = 6; t >= 0; t--) bit((a >> t) & 1);
      at += a >> 7;
      bit(1);
    }
    return at > 8 * SG && !cut ? Bytes{} : b;
  }
  static size_t bits(const Poly& s2) { size_t n = 0; for (int c : s2) n += 9 + static_cast<size_t>((c < 0 ? -c : c) >> 7); return n; }
  static int64_t norm(const Poly& p) { int64_t n = 0; for (int64_t c : p) n += c * c; return n; }

  // words whose hash polynomial is c (mod q), with refused words in between
  Bytes words_of(const Poly& c)
  {
    Bytes b;
    auto put = [&](uint32_t w) { b.push_back(static_cast<uint8_t>(w >> 8)); b.push_back(static_cast<uint8_t>(w)); };
    for (size_t i = 0; i < N; i++) {
      while (rng.coin(9)) put(61445 + static_cast<uint32_t>(rng.below(4091)));
      put(static_cast<uint32_t>(((c[i] % 12289) + 12289) % 12289) + 12289 * static_cast<uint32_t>(rng.below(5)));
    }
    for (int i = 0; i < 200; i++) put(static_cast<uint32_t>(rng.below(61445)));
    return b;
  }
  // c with c - s2 h = s1
  Bytes words_for(const Poly& s1, const Poly& s2, const uint16_t* h)
  {
    std::vector<int32_t> t(s2.begin(), s2.end());
    Poly c = keys::mul<N>(t.data(), h);
    for (size_t i = 0; i < N; i++) c[i] += s1[i];
    return words_of(c);
  }
  // coefficients of an overall squared norm, the last four settling it; empty if they cannot
  Poly settle(Poly p, int64_t left, int max)
  {
    for (size_t i = N - 4; i < N; i++) { left += static_cast<int64_t>(p[i]) * p[i]; }
    for (size_t i = N - 4; i < N; i++) p[i] = 0;
    // four squares
    for (int tries = 0; tries < 20000 && left >= 0; tries++) {
      auto near = [&](int64_t v) { const int64_t m = static_cast<int64_t>(std::sqrt(static_cast<double>(v))), r = m - static_cast<int64_t>(rng.below(24)); return std::min<int64_t>(max, r < 0 ? 0 : r); };
      const int64_t a = near(left), r = left - a * a, b = near(r), r2 = r - b * b, c = near(r2), r3 = r2 - c * c;
      if (r < 0 || r2 < 0 || r3 < 0) continue;
      int64_t d = static_cast<int64_t>(std::sqrt(static_cast<double>(r3)));
      while (d * d > r3) d--;
      while ((d + 1) * (d + 1) <= r3) d++;
      if (d * d == r3 && a <= max && b <= max && c <= max && d <= max) {
        const int64_t v[] = { a, b, c, d };
        for (size_t i = 0; i < 4; i++) p[N - 4 + i] = static_cast<int>(rng.coin() ? v[i] : -v[i]);
        return p;
      }
    }
    return {};
  }
  // s1 with norm(s1) + norm(s2) = target
  Poly s1_for(const Poly& s2, int64_t target, std::vector<std::pair<size_t, int>> fixed = {})
  {
    const int64_t left0 = target - norm(s2);
    for (int t = 0; t < 200; t++) {
      Poly p(N);
      int64_t fx = 0;
      for (auto& f : fixed) fx += static_cast<int64_t>(f.second) * f.second;
      if (left0 < fx) return {};
      const double sd = std::sqrt(static_cast<double>(left0 - fx) / static_cast<double>(N)) * 0.97;
      for (auto& c : p) {
        c = sd > 3500 ? static_cast<int>(rng.range(-6144, 6144)) : static_cast<int>(std::lround(sd * normal()));
        c = c > 6144 ? 6144 : c < -6144 ? -6144 : c;
      }
      if (sd > 3500) for (auto& c : p) { const double m = sd / 0.97; c = static_cast<int>((rng.coin() ? 1 : -1) * std::min(6144.0, m)); }
      for (auto& f : fixed) p[f.first] = f.second;
      // take squares away until the rest is non-negative and small
      for (size_t i = 0; i < N - 4 && norm(p) > left0; i++) {
        bool fxd = false;
        for (auto& f : fixed) fxd |= f.first == i;
        if (!fxd) p[i] /= 2;
      }
      if (norm(p) > left0) continue;
      Poly r = settle(p, left0 - norm(p), 6144);
      if (!r.empty()) return r;
    }
    return {};
  }
  Poly gauss(double sd, int max = 4000) { Poly p(N); for (auto& c : p) { c = static_cast<int>(std::lround(sd * normal())); c = c > max ? max : c < -max ? -max : c; } return p; }

  // verdict through the byte interface (twice) or with the public polynomial
  void ver(const char* what, const Bytes& pk0, const Bytes& sig0, const Bytes& m0, const Bytes& xof, bool low = false)
  {
    if (sig0.empty()) return;
    Guard<uint8_t> m(m0.size()), sig(SG), pk(K::PK);
    Guard<ff::ff_t> h(N);
    std::copy(m0.begin(), m0.end(), m.p); std::copy(sig0.begin(), sig0.end(), sig.p); std::copy(pk0.begin(), pk0.end(), pk.p);
    for (size_t i = 0; i < N; i++) { // fields of the key
      const size_t at = 8 + 14 * i;
      uint32_t v = 0;
      for (unsigned t = 0; t < 14; t++) v |= static_cast<uint32_t>((pk0[(at + t) >> 3] >> ((at + t) & 7)) & 1) << t;
      h[i].v = static_cast<uint16_t>(v);
    }
    const std::vector<ff::ff_t> h0(h.p, h.p + N);
    // what the hash of salt and message is
    Bytes want(sig0.begin() + 1, sig0.begin() + 41);
    want.insert(want.end(), m0.begin(), m0.end());
    Bytes x = xof;
    if (x.empty()) {
      shake256::impl::sponge_t st;
      st.absorb(want.data(), want.size());
      st.finalize();
      x.resize(2 * N + 1000);
      st.read(x.data(), x.size());
    }
    std::vector<int> w;
    for (size_t i = 0; i + 1 < x.size(); i += 2) w.push_back(x[i] << 8 | x[i + 1]);
    drv::begin(what);
    J j; j.kv("op", low ? "verlow" : "ver").kv("what", what).kv("mlen", static_cast<int64_t>(m0.size())).kva("pk", pk0.data(), pk0.size()).kva("sig", sig0.data(), sig0.size());
    j.kva("words", w.data(), w.size());
    drv::call(j);
    Seen s, s2;
    env::ctl.hook = Seen::hook;
    auto run = [&](Seen& z) {
      env::ctl.arg = &z; env::ctl.xof = xof;
      return low ? verification::verify<N, static_cast<int32_t>(B2)>(h.p, m.p, m0.size(), sig.p) : falcon::verify<N>(pk.p, m.p, m0.size(), sig.p);
    };
    const bool a = run(s);
    // another verification in between
    Guard<uint8_t> om(1), os(SG), op(K::PK);
    om[0] = 7;
    os.fill(0x55); op.fill(0x2a);
    { Seen z; env::ctl.arg = &z; env::ctl.xof.clear(); if (rng.coin()) std::copy(ks[0].pk.begin(), ks[0].pk.end(), op.p); falcon::verify<N>(op.p, om.p, 1, os.p); }
    const bool b = run(s2);
    env::ctl.hook = nullptr; env::ctl.xof.clear();
    auto heard = [&](const Seen& z) { return z.inst == 0 || (z.inst == 1 && z.absorbed == want); };
    const bool mem = m.intact() && sig.intact() && pk.intact() && h.intact() && std::equal(m0.begin(), m0.end(), m.p) && std::equal(sig0.begin(), sig0.end(), sig.p) && std::equal(pk0.begin(), pk0.end(), pk.p) && !std::memcmp(h0.data(), h.p, N * sizeof(ff::ff_t));
    drv::ret(J().kvb("ok", a).kvb("again", b).kvb("hashed", heard(s) && heard(s2)).kvb("mem", mem));
    drv::end();
  }

  void go(long k)
  {
    J hd; hd.kv("n", N); drv::head(hd);
    ks = keys::load<N>(N == 512 ? 32 : 16);
    size_t at = static_cast<size_t>(rng.below(ks.size()));
    auto key = [&]() -> K& { return ks[at++ % ks.size()]; };
    auto salt = [&] { return msg(40); };
    const double sd = N == 512 ? 165.7 : 168.4;
    auto s2n = [&] { for (;;) { Poly p = gauss(sd); if (bits(p) <= 8 * (SG - 41)) return p; } };
    uint16_t zero[N] = {}, one[N] = {}, top[N], rnd[N];
    one[0] = 1;
    for (size_t i = 0; i < N; i++) { top[i] = 12288; rnd[i] = static_cast<uint16_t>(rng.below(12289)); }
    const uint16_t* hs[] = { zero, one, top, rnd };
    auto anyh = [&](size_t t) -> const uint16_t* { return t % 6 < 4 ? hs[t % 6] : key().h; };

    // ---- exact norms
    const int64_t P31 = int64_t(1) << 31, P32 = int64_t(1) << 32;
    std::vector<int64_t> norms = { 0, 1, B2 - 12289, B2 - 1000, B2 - 2, B2 - 1, B2, B2 + 1, B2 + 2, B2 + 1000, B2 + 12289, 2 * B2, P31 - 1, P31, P31 + 1, P31 + B2, P32 - 1, P32, P32 + 1, P32 + B2 - 1, P32 + B2, P32 + B2 + 1, 2 * P32 + B2 / 2, 3 * P32 + 5, P31 + P32, P31 + P32 + 77 };
    for (int64_t d = 1; d < 16 * k; d++) { norms.push_back(B2 + d); norms.push_back(B2 - d); }
    for (long t = 0; t < 12 * k; t++) norms.push_back(static_cast<int64_t>(rng.below(static_cast<uint64_t>(3 * B2))));
    for (long t = 0; t < 6 * k; t++) norms.push_back(static_cast<int64_t>(rng.below(4 * static_cast<uint64_t>(P32))));
    for (size_t t = 0; t < norms.size(); t++) {
      const int64_t n = norms[t];
      Poly s2 = t % 3 == 0 ? Poly(N) : s2n();
      if (norm(s2) > n) s2 = Poly(N);
      const uint16_t* h = anyh(t);
      const Poly s1 = s1_for(s2, n);
      if (s1.empty()) continue;
      ver("norm", keys::enc_pk<N>(h), sig_of(salt(), s2), msg(rng.below(50)), words_for(s1, s2, h), t % 2);
    }
    // ---- everything in s2, large coefficients
    for (long t = 0; t < 10 * k; t++) {
      Poly s2(N);
      size_t room = 8 * (SG - 41) - 9 * N;
      const int cnt = static_cast<int>(1 + rng.below(5));
      for (int i = 0; i < cnt; i++) {
        const size_t u = i == cnt - 1 ? room - (t % 2 ? 0 : rng.below(3)) : rng.below(room / 2);
        const size_t p = rng.below(N);
        if (s2[p]) continue;
        const int v = static_cast<int>(128 * u + (t % 3 ? 127 : rng.below(128)));
        s2[p] = rng.coin() ? v : -v;
        room -= u;
      }
      const uint16_t* h = anyh(static_cast<size_t>(t));
      ver("large-s2", keys::enc_pk<N>(h), sig_of(salt(), s2), msg(9), words_for(Poly(N), s2, h), t % 2);
    }
    // a single coefficient whose square is around the bound, and around q and its multiples
    {
      const int r = static_cast<int>(std::sqrt(static_cast<double>(B2)));
      for (int v : { r - 1, r, r + 1, 6143, 6144, 6145, 6146, 12288, 12289, 12290, 24578, 32767, 32768, 46340, 46341, 50175, 1023, 1024, 2047, 2048 }) for (int s : { 1, -1 }) {
        Poly s2(N);
        s2[rng.below(N)] = s * v;
        if (bits(s2) > 8 * (SG - 41)) continue;
        const uint16_t* h = anyh(static_cast<size_t>(v + (s > 0)));
        const int64_t left = B2 - static_cast<int64_t>(v) * v;
        Poly s1(N);
        if (left > 0 && rng.coin()) s1 = s1_for(s2, B2 + static_cast<int64_t>(rng.range(-1, 1)));
        if (s1.empty()) continue;
        ver("one-s2", keys::enc_pk<N>(h), sig_of(salt(), s2), msg(9), words_for(s1, s2, h), v % 2);
      }
    }
    // ---- centring: residues around q/2, with the norm at the bound
    for (long t = 0; t < 14 * k; t++) {
      const int vs[] = { 6144, -6144, 6143, -6143, 5833, -5833, 6144 };
      const int v = vs[t % 7];
      Poly s2 = t % 2 ? Poly(N) : gauss(20);
      const uint16_t* h = anyh(static_cast<size_t>(t));
      const size_t p = rng.below(N - 4);
      const int64_t n = N == 512 && std::abs(v) > 5833 ? B2 + 3000000 + static_cast<int64_t>(rng.below(10000000)) : B2 + static_cast<int64_t>(rng.range(-1, 1)) * (t % 3 ? 1 : 12288);
      const Poly s1 = s1_for(s2, n, { { p, v } });
      if (s1.empty()) continue;
      ver("centre", keys::enc_pk<N>(h), sig_of(salt(), s2), msg(5), words_for(s1, s2, h), t % 2);
    }
    // ---- honest signatures, and what becomes of them when something is changed
    for (long t = 0; t < 3 * k; t++) {
      K &a = key(), &o = key();
      const Bytes m = msg(rng.below(200));
      Bytes s(SG);
      { env::ctl.hook = nullptr; falcon::sign<N>(static_cast<const uint8_t*>(a.sk.data()), m.data(), m.size(), s.data()); }
      ver("honest", a.pk, s, m, {}); ver("honest", a.pk, s, m, {}, true);
      ver("other-key", o.pk, s, m, {});
      Bytes m2 = m; m2.push_back(0); ver("longer-message", a.pk, s, m2, {});
      if (!m.empty()) { Bytes m3 = m; m3[rng.below(m3.size())] ^= static_cast<uint8_t>(1u << rng.below(8)); ver("message-bit", a.pk, s, m3, {}); Bytes m4(m.begin(), m.end() - 1); ver("shorter-message", a.pk, s, m4, {}); }
      for (int i = 0; i < 4; i++) { Bytes z = s; z[1 + rng.below(40)] ^= static_cast<uint8_t>(1u << rng.below(8)); ver("salt-bit", a.pk, z, m, {}); }
      for (int i = 0; i < 8; i++) { Bytes z = s; z[0] ^= static_cast<uint8_t>(1u << i); ver("sig-header", a.pk, z, m, {}); }
      for (int i = 0; i < 8; i++) { Bytes z = a.pk; z[0] ^= static_cast<uint8_t>(1u << i); ver("pk-header", z, s, m, {}); }
      for (int i = 0; i < 6; i++) { Bytes z = s; z[41 + rng.below(SG - 41)] ^= static_cast<uint8_t>(1u << rng.below(8)); ver("body-bit", a.pk, z, m, {}); }
      for (int i = 0; i < 4; i++) { Bytes z = a.pk; z[1 + rng.below(z.size() - 1)] ^= static_cast<uint8_t>(1u << rng.below(8)); ver("pk-bit", z, s, m, {}); }
      { Bytes z = s; z[SG - 1] ^= static_cast<uint8_t>(1u << rng.below(3)); ver("padding", a.pk, z, m, {}); }
    }
    // ---- malformed, where a lenient reading would be short
    for (long t = 0; t < 12 * k; t++) { // public coefficients that alias a residue
      Poly s2 = s2n();
      uint16_t h[N];
      for (size_t i = 0; i < N; i++) h[i] = static_cast<uint16_t>(rng.below(12289));
      const size_t p = t % 4 == 0 ? 0 : t % 4 == 1 ? N - 1 : rng.below(N);
      h[p] = static_cast<uint16_t>(t % 3 == 0 ? 0 : rng.below(4095));
      const Bytes x = words_for(gauss(sd, 6144), s2, h);
      h[p] = static_cast<uint16_t>(h[p] + 12289);
      ver("pk-alias", keys::enc_pk<N>(h), sig_of(salt(), s2), msg(7), x);
    }
    for (long t = 0; t < 12 * k; t++) { // negative zero, bits after the end, no end
      Poly s2 = s2n();
      const size_t p = t % 3 == 0 ? 0 : t % 3 == 1 ? N - 1 : rng.below(N);
      s2[p] = 0;
      const uint16_t* h = anyh(static_cast<size_t>(t));
      const Bytes x = words_for(gauss(sd, 6144), s2, h);
      Bytes b = sig_of(salt(), s2);
      if (b.empty()) continue;
      const size_t end = 41 * 8 + bits(s2);
      ver("well-formed", keys::enc_pk<N>(h), b, msg(7), x);
      Bytes z = b;
      Poly before(s2.begin(), s2.begin() + static_cast<long>(p));
      size_t at0 = 41 * 8 + bits(before);
      z[at0 >> 3] |= static_cast<uint8_t>(0x80u >> (at0 & 7));
      ver("negative-zero", keys::enc_pk<N>(h), z, msg(7), x);
      if (end < 8 * SG) {
        for (size_t q : { end, 8 * SG - 1, end + rng.below(8 * SG - end) }) { z = b; z[q >> 3] |= static_cast<uint8_t>(0x80u >> (q & 7)); ver("padding-bit", keys::enc_pk<N>(h), z, msg(7), x); }
      }
      z = b; // the last coefficient never ends
      for (size_t q = end - 1; q < 8 * SG; q++) z[q >> 3] &= static_cast<uint8_t>(~(0x80u >> (q & 7)));
      ver("open-end", keys::enc_pk<N>(h), z, msg(7), x);
    }
    // encodings that fill the body exactly
    for (long t = 0; t < 6 * k; t++) {
      Poly s2(N);
      for (auto& c : s2) c = static_cast<int>(rng.range(-127, 127));
      size_t room = 8 * (SG - 41) - bits(s2) - (t % 3 == 2 ? 1 : 0);
      while (room) { const size_t p = rng.below(N), u = std::min<size_t>(room, 1 + rng.below(4)); s2[p] += s2[p] < 0 ? -static_cast<int>(128 * u) : static_cast<int>(128 * u); room -= u; }
      const uint16_t* h = anyh(static_cast<size_t>(t));
      const Poly s1 = norm(s2) < B2 ? s1_for(s2, B2 + t % 2) : gauss(9);
      if (s1.empty()) continue;
      ver("exact-fit", keys::enc_pk<N>(h), sig_of(salt(), s2), msg(3), words_for(s1, s2, h));
    }
    // encodings cut at the end of the body: within the last sign, low or high part
    for (long t = 0; t < 16 * k; t++) {
      Poly s2(N);
      for (auto& c : s2) c = static_cast<int>(rng.range(-127, 127));
      size_t room = 8 * (SG - 41) - bits(s2) + 1 + static_cast<size_t>(t) % 16;
      s2[N - 1] = 0;
      while (room) { const size_t p = rng.below(N - 2), u = std::min<size_t>(room, 1 + rng.below(4)); s2[p] += s2[p] < 0 ? -static_cast<int>(128 * u) : static_cast<int>(128 * u); room -= u; }
      if (t % 2) s2[N - 2] = 0;
      const uint16_t* h = anyh(static_cast<size_t>(t));
      ver("cut", keys::enc_pk<N>(h), sig_of(salt(), s2, true), msg(3), words_for(gauss(9), s2, h), t % 4 == 0);
    }
    // ---- arbitrary bytes
    for (long t = 0; t < 12 * k; t++) {
      Bytes p(K::PK), s(SG);
      const int f = static_cast<int>(rng.below(4));
      if (t % 3 == 0) { rng.bytes(p.data(), p.size()); rng.bytes(s.data(), s.size()); }
      else if (t % 3 == 1) { p = key().pk; rng.bytes(s.data(), s.size()); }
      else { p.assign(p.size(), f == 0 ? 0 : f == 1 ? 255 : 0xaa); s.assign(s.size(), f == 2 ? 0 : f == 3 ? 255 : 0x55); }
      if (t % 2) { p[0] = N == 512 ? 9 : 10; s[0] = static_cast<uint8_t>(0x30 | (N == 512 ? 9 : 10)); }
      ver("arbitrary", p, s, msg(rng.below(400)), {});
    }
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  const uint64_t seed = static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1));
  drv::Rng rng(seed);
  env::ctl.det = true; env::ctl.det_seed = seed;
  const long k = drv::opti(argc, argv, "--k", 1);
  if (drv::opti(argc, argv, "--lg", 9) == 9) Run<512>{ rng, {} }.go(k);
  else Run<1024>{ rng, {} }.go(k);
  return drv::close();
}
