// Signing sessions (C01, C12, C17, C18): key expansion, both signing entry
// points with the bytes their generator hands out, verification.
#include "drv.hpp"
#include "keys.hpp"
#include "script.hpp"
#include "prng_tap.hpp"
#include "falcon.hpp"
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
using fft::cmplx;
using CV = std::vector<cmplx>;
namespace env = shake256::env;

// bytes handed out by generators and words squeezed by the hash
struct Seen
{
  Bytes b, xof, absorbed;
  std::vector<uint64_t> inst;
  bool reads = true;
  static void hook(void* a, env::kind_t k, uint64_t id, bool prng, const uint8_t* p, size_t n)
  {
    auto& s = *static_cast<Seen*>(a);
    if (prng && k == env::READ) {
      s.b.insert(s.b.end(), p, p + n);
      if (s.inst.empty() || s.inst.back() != id) s.inst.push_back(id);
    } else if (!prng && k == env::READ) s.xof.insert(s.xof.end(), p, p + n);
    else if (!prng && k == env::ABSORB) s.absorbed.insert(s.absorbed.end(), p, p + n);
  }
  std::vector<int> words() const
  {
    std::vector<int> w;
    for (size_t i = 0; i + 1 < xof.size(); i += 2) w.push_back(xof[i] << 8 | xof[i + 1]);
    return w;
  }
};

template<size_t LG>
static std::vector<int> order()
{
  constexpr size_t n = size_t(1) << LG;
  CV x(n);
  x[1] = 1;
  fft::fft<LG>(x.data());
  std::vector<int> o;
  for (auto z : x) {
    double t = std::arg(z) / M_PI * static_cast<double>(n);
    if (t < 0) t += 2 * static_cast<double>(n);
    o.push_back(static_cast<int>(std::lround((t - 1) / 2)));
  }
  return o;
}

template<size_t N>
struct Run
{
  static constexpr size_t LG = N == 512 ? 9 : 10, TS = N * (LG + 1), SG = keys::Key<N>::SG;
  drv::Rng& rng;
  Guard<cmplx> B{ 4 * N }, T{ TS };
  CV B0, T0;
  keys::Key<N> k;
  std::vector<std::pair<Bytes, Bytes>> made; // (message, signature)
  std::vector<std::pair<size_t, size_t>> reps; // where the script repeats itself: offset, period

  static void lays()
  {
    std::vector<std::vector<int>> l{ order<1>(), order<2>(), order<3>(), order<4>(), order<5>(), order<6>(), order<7>(), order<8>(), order<9>() };
    if (N == 1024) l.push_back(order<10>());
    J j; j.kv("n", N).key("lays").raw("[");
    for (size_t i = 0; i < l.size(); i++) { if (i) j.raw(","); j.arr(l[i].data(), l[i].size()); }
    j.raw("]");
    drv::head(j);
  }
  Bytes msg(size_t n) { Bytes m(n); rng.bytes(m.data(), n); return m; }

  void expand(const keys::Key<N>& key, bool leaves)
  {
    k = key;
    made.clear();
    drv::event(J().kv("op", "key").kva("f", k.f, N).kva("g", k.g, N).kva("F", k.F, N).kva("G", k.G, N));
    Guard<int32_t> f(N), g(N), F(N), G(N);
    std::copy(k.f, k.f + N, f.p); std::copy(k.g, k.g + N, g.p); std::copy(k.F, k.F + N, F.p); std::copy(k.G, k.G + N, G.p);
    auto mem = [&] { return f.intact() && g.intact() && F.intact() && G.intact() && std::equal(k.f, k.f + N, f.p) && std::equal(k.g, k.g + N, g.p) && std::equal(k.F, k.F + N, F.p) && B.intact() && T.intact(); };
    drv::call(J().kv("op", "recompute"));
    falcon::recompute_G<N>(f.p, g.p, F.p, G.p);
    drv::ret(J().kva("G", G.p, N).kvb("mem", mem()));
    std::copy(k.G, k.G + N, G.p);
    for (size_t i = 0; i < 4 * N; i++) B[i] = { rng.unit(), rng.unit() };
    for (size_t i = 0; i < TS; i++) T[i] = { rng.unit(), rng.unit() };
    drv::call(J().kv("op", "expand"));
    falcon::compute_matrix_B<N>(f.p, g.p, F.p, G.p, B.p);
    B0.assign(B.p, B.p + 4 * N);
    falcon::compute_falcon_tree<N>(B.p, T.p);
    T0.assign(T.p, T.p + TS);
    J r; r.kvc("B", B.p, 4 * N).kvc("T", T.p, TS);
    r.kvb("mem", mem() && std::equal(k.G, k.G + N, G.p) && !std::memcmp(B.p, B0.data(), 4 * N * sizeof(cmplx)));
    drv::ret(r);
    if (leaves) drv::event(J().kv("op", "leaves"));
  }
  bool same() { return B.intact() && T.intact() && !std::memcmp(B.p, B0.data(), 4 * N * sizeof(cmplx)) && !std::memcmp(T.p, T0.data(), TS * sizeof(cmplx)); }

  void put(const Seen& s, const char* entry, bool ok, bool mem, const Bytes& m, Guard<uint8_t>& sig)
  {
    J r; r.kv("entry", entry).kvb("ok", ok).kvb("mem", mem).kv("inst", static_cast<int64_t>(s.inst.size()));
    const auto w = s.words();
    r.kva("words", w.data(), w.size());
    const size_t c = s.b.size() < 40 ? s.b.size() : 40;
    std::erase_if(reps, [](auto& x) { return x.second == 0; });
    Bytes all = s.b;
    int64_t left_out = 0;
    for (auto x = reps.rbegin(); x != reps.rend(); x++) { // copies in direct succession are recorded once
      auto [at, len] = *x;
      size_t n = 0;
      while (at + (n + 2) * len <= all.size() && std::equal(all.begin() + static_cast<long>(at), all.begin() + static_cast<long>(at + len), all.begin() + static_cast<long>(at + (n + 1) * len))) n++;
      all.erase(all.begin() + static_cast<long>(at), all.begin() + static_cast<long>(at + n * len));
      left_out += static_cast<int64_t>(n);
    }
    reps.clear();
    r.kv("left_out", left_out);
    r.kva("salt", s.b.data(), c).kva("b", all.data() + c, all.size() - c).kva("sig", sig.p, SG);
    Bytes want(s.b.begin(), s.b.begin() + static_cast<long>(c));
    want.insert(want.end(), m.begin(), m.end());
    r.kvb("hashed", s.absorbed == want);
    drv::ret(r);
    made.emplace_back(m, Bytes(sig.p, sig.p + SG));
  }
  // with the precomputed basis and tree
  void sign(prng::prng_t& r, const Bytes& m0)
  {
    Guard<uint8_t> m(m0.size()), sig(SG);
    std::copy(m0.begin(), m0.end(), m.p);
    rng.bytes(sig.p, SG);
    Seen s;
    drv::call(J().kv("op", "sign").kv("mlen", static_cast<int64_t>(m0.size())), 60);
    env::ctl.hook = Seen::hook; env::ctl.arg = &s;
    falcon::sign<N>(static_cast<const cmplx*>(B.p), static_cast<const cmplx*>(T.p), m.p, m0.size(), sig.p, r);
    env::ctl.hook = nullptr;
    put(s, "BT", true, same() && m.intact() && sig.intact() && std::equal(m0.begin(), m0.end(), m.p), m0, sig);
  }
  void sign(const Bytes& m0, const Bytes& script = {})
  {
    env::ctl.script = script;
    prng::prng_t r;
    sign(r, m0);
  }
  // with the serialized key
  void signsk(const Bytes& m0, const Bytes& script = {})
  {
    Guard<uint8_t> m(m0.size()), sig(SG), sk(k.SK);
    std::copy(m0.begin(), m0.end(), m.p); std::copy(k.sk.begin(), k.sk.end(), sk.p);
    rng.bytes(sig.p, SG);
    Seen s;
    drv::call(J().kv("op", "sign").kv("mlen", static_cast<int64_t>(m0.size())), 60);
    env::ctl.script = script;
    env::ctl.hook = Seen::hook; env::ctl.arg = &s;
    const bool ok = falcon::sign<N>(static_cast<const uint8_t*>(sk.p), m.p, m0.size(), sig.p);
    env::ctl.hook = nullptr;
    put(s, "SK", ok, m.intact() && sig.intact() && sk.intact() && std::equal(m0.begin(), m0.end(), m.p) && std::equal(k.sk.begin(), k.sk.end(), sk.p), m0, sig);
  }
  // one of the signatures made, under the public key
  void verify(size_t at)
  {
    const Bytes &m0 = made[at].first, &s0 = made[at].second;
    Guard<uint8_t> m(m0.size()), sig(SG), pk(k.PK);
    std::copy(m0.begin(), m0.end(), m.p); std::copy(s0.begin(), s0.end(), sig.p); std::copy(k.pk.begin(), k.pk.end(), pk.p);
    Seen s;
    drv::call(J().kv("op", "verify").kva("pk", pk.p, k.PK).kva("sig", sig.p, SG));
    env::ctl.hook = Seen::hook; env::ctl.arg = &s;
    const bool ok = falcon::verify<N>(pk.p, m.p, m0.size(), sig.p);
    env::ctl.hook = nullptr;
    const auto w = s.words();
    drv::ret(J().kva("words", w.data(), w.size()).kvb("ok", ok).kvb("mem", m.intact() && sig.intact() && pk.intact() && std::equal(m0.begin(), m0.end(), m.p) && std::equal(s0.begin(), s0.end(), sig.p)));
  }

  // ---- histories
  // expansion, one signature per entry point from the same bytes, verification
  void pair(const keys::Key<N>& key, size_t mlen)
  {
    drv::begin("pair");
    expand(key, true);
    Script sc{ rng };
    const Bytes b = [&] { Bytes o(40 + 130 * N), t = sc.salt(); rng.bytes(o.data(), o.size()); std::copy(t.begin(), t.end(), o.begin()); return o; }();
    const Bytes m = msg(mlen);
    sign(m, b); signsk(m, b);
    drv::event(J().kv("op", "samesig"));
    verify(0); verify(1);
    drv::end();
  }
  // several signatures with one generator, verified in another order
  void session(const keys::Key<N>& key, const std::vector<size_t>& lens)
  {
    drv::begin("session");
    expand(key, false);
    prng::prng_t r;
    for (size_t n : lens) { if (rng.coin(4)) signsk(msg(n)); else sign(r, msg(n)); }
    signsk(msg(9), Script{ rng }.salt());
    for (size_t i = made.size(); i--;) verify(i);
    drv::end();
  }
  // a rejected candidate of that kind all of whose trials are accepted, so that copies of it are drawn one by one
  // (under that salt and message: what is accepted depends on the target)
  Bytes steady(char c, const Bytes& salt, const Bytes& m)
  {
    Script sc{ rng };
    Bytes last; // 'm': as 'l', but no longer than it has to be
    const uint64_t shape = rng.next();
    for (int t = 0; t < (c == 'm' ? 90 : 60); t++) {
      Bytes one, good;
      if (c == 'm') {
        drv::Rng same(shape);
        Script{ same }.candidate(one, N, 1.9 - 0.01 * t, 1.9 - 0.01 * t);
      } else if (c == 'l') sc.candidate(one, N, 1.9 - 0.02 * t, 1.9 - 0.02 * t);
      else sc.candidate(one, N, 0.3, (N == 512 ? dc512 : dc1024) * (1 - 0.005 * t));
      sc.candidate(good, N, 0.5, 0.5);
      Bytes b = salt, sig(SG);
      for (int i = 0; i < 3; i++) b.insert(b.end(), one.begin(), one.end());
      b.insert(b.end(), good.begin(), good.end());
      env::ctl.script = b;
      prng::prng_t r;
      Seen s;
      env::ctl.hook = Seen::hook; env::ctl.arg = &s;
      falcon::sign<N>(static_cast<const cmplx*>(B.p), static_cast<const cmplx*>(T.p), m.data(), m.size(), sig.data(), r);
      env::ctl.hook = nullptr;
      if (s.b.size() == b.size()) {
        if (c != 'm') return one;
        last = one;
      } else if (c == 'm' && s.b.size() < 40 + 2 * one.size() && !last.empty()) break;
    }
    return last;
  }
  // rejected candidates first: kinds 'l' too long, 'c' does not compress; a number
  // before a kind is how many times the very same candidate comes
  void retries(const keys::Key<N>& key, const std::string& kinds, bool sk)
  {
    drv::begin("retries-" + kinds);
    expand(key, false);
    Script sc{ rng };
    Bytes b = sc.salt();
    const Bytes salt = b, m = msg(20);
    size_t times = 0;
    for (char c : kinds) {
      if (c >= '0' && c <= '9') { times = 10 * times + static_cast<size_t>(c - '0'); continue; }
      const size_t at = b.size();
      if (times > 1) {
        const Bytes one = steady(c, salt, m);
        if (!one.empty()) {
          reps.emplace_back(at, one.size());
          for (size_t t = 0; t < times; t++) b.insert(b.end(), one.begin(), one.end());
        }
        times = 0;
        continue;
      }
      if (c == 'l') sc.candidate(b, N, 1.9, 1.9);
      else if (c == 'c') sc.candidate(b, N, 0.3, N == 512 ? dc512 : dc1024);
      else sc.candidate(b, N, 0.5, 0.5);
    }
    if (sk) signsk(m, b); else sign(m, b);
    verify(0);
    drv::end();
  }
  // candidates whose norm or compressed length is within a few units of what
  // is allowed, on either side; a good one after them
  void edges(size_t max, size_t skip)
  {
    const std::string p = keys::dir(nullptr) + "/edge" + (N == 512 ? "512.bin" : "1024.bin");
    FILE* f = std::fopen(p.c_str(), "rb");
    if (!f) { std::perror(p.c_str()); std::exit(2); }
    struct { int32_t kind, set, key, excess; } hd;
    std::vector<std::pair<decltype(hd), Bytes>> all;
    Bytes raw(60 + 22 * N);
    while (std::fread(&hd, sizeof hd, 1, f) == 1 && std::fread(raw.data(), 1, raw.size(), f) == raw.size()) all.emplace_back(hd, raw);
    std::fclose(f);
    const auto a = keys::load<N>(8), b = keys::load<N>(2, 0, "skew");
    for (size_t t = 0; t < max && t < all.size(); t++) {
      const auto& [d, x] = all[(skip + t) % all.size()];
      drv::begin(std::string(d.kind ? "length" : "norm") + "-edge" + std::to_string(d.excess));
      expand(d.set ? b.at(static_cast<size_t>(d.key)) : a.at(static_cast<size_t>(d.key)), false);
      Bytes sc(x.begin(), x.begin() + 40);
      const Bytes m(x.begin() + 40, x.begin() + 60);
      sc.insert(sc.end(), x.begin() + 60, x.end());
      Script s{ rng };
      s.candidate(sc, N, 0.5, 0.5);
      if (rng.coin()) signsk(m, sc); else sign(m, sc);
      verify(0);
      drv::end();
    }
  }
  // basis and tree of the lower-level generator, then the serialized key
  void low(const keys::Key<N>& cand, size_t mlen)
  {
    drv::begin("low");
    Guard<ff::ff_t> h(N);
    for (size_t i = 0; i < 4 * N; i++) B[i] = { rng.unit(), rng.unit() };
    for (size_t i = 0; i < TS; i++) T[i] = { rng.unit(), rng.unit() };
    Script sc{ rng };
    Bytes b;
    for (const int32_t* p : { cand.f, cand.g }) for (size_t i = 0; i < N; i++) {
      constexpr int m = 4096 / N;
      int left = p[i];
      for (int j = m; j; j--) { const int v = left / j; sc.frame(b, v); left -= v; }
    }
    drv::call(J().kv("op", "lowgen"), 400);
    env::ctl.script = b;
    prng::prng_t r;
    keygen::keygen<N>(B.p, T.p, h.p, N == 512 ? 165.736617183 : 168.388571447, r);
    drv::ret(J());
    made.clear();
    B0.assign(B.p, B.p + 4 * N); T0.assign(T.p, T.p + TS);
    // read the key off the basis
    int32_t* out[] = { k.g, k.f, k.G, k.F };
    for (size_t j = 0; j < 4; j++) {
      CV v(B.p + j * N, B.p + (j + 1) * N);
      fft::ifft<LG>(v.data());
      for (size_t i = 0; i < N; i++) out[j][i] = static_cast<int32_t>(std::lround(j % 2 ? -v[i].real() : v[i].real()));
    }
    for (size_t i = 0; i < N; i++) k.h[i] = h[i].v;
    k.pk = keys::enc_pk<N>(k.h); k.sk = keys::enc_sk<N>(k.f, k.g, k.F);
    drv::event(J().kv("op", "key").kva("f", k.f, N).kva("g", k.g, N).kva("F", k.F, N).kva("G", k.G, N));
    drv::event(J().kv("op", "expand").kvc("B", B.p, 4 * N).kvc("T", T.p, TS).kvb("mem", same() && h.intact()));
    Bytes s(40 + 130 * N);
    rng.bytes(s.data(), s.size());
    const Bytes m = msg(mlen);
    sign(m, s); signsk(m, s);
    drv::event(J().kv("op", "samesig"));
    verify(0); verify(1);
    drv::end();
  }
  // one-shot signing with serialized keys, well-formed and not (C05)
  void sksign(const Bytes& b0)
  {
    const Bytes m0 = msg(rng.below(30));
    Guard<uint8_t> m(m0.size()), sig(SG), sk(k.SK);
    std::copy(m0.begin(), m0.end(), m.p); std::copy(b0.begin(), b0.end(), sk.p);
    rng.bytes(sig.p, SG);
    const Bytes s0(sig.p, sig.p + SG);
    drv::call(J().kv("op", "sksign").kva("b", b0.data(), b0.size()), 30);
    const bool ok = falcon::sign<N>(static_cast<const uint8_t*>(sk.p), m.p, m0.size(), sig.p);
    drv::ret(J().kvb("ok", ok).kvb("untouched", std::equal(s0.begin(), s0.end(), sig.p)).kvb("mem", m.intact() && sig.intact() && sk.intact() && std::equal(m0.begin(), m0.end(), m.p) && std::equal(b0.begin(), b0.end(), sk.p)));
  }
  void sksigns(const keys::Key<N>& key)
  {
    k = key;
    constexpr unsigned W = keys::Key<N>::W;
    auto set = [](Bytes& b, size_t at, unsigned w, uint32_t v) { for (unsigned t = 0; t < w; t++) { const size_t q = at + t; b[q >> 3] = static_cast<uint8_t>((b[q >> 3] & ~(1u << (q & 7))) | (((v >> t) & 1u) << (q & 7))); } };
    drv::begin("sksign");
    sksign(k.sk);
    for (int i = 0; i < 8; i++) { Bytes b = k.sk; b[0] ^= static_cast<uint8_t>(1u << i); sksign(b); }
    for (size_t p : { size_t(0), N - 1, static_cast<size_t>(rng.below(N)), static_cast<size_t>(rng.below(N)) }) {
      Bytes b = k.sk; set(b, 8 + W * p, W, 1u << (W - 1)); sksign(b);
      b = k.sk; set(b, 8 + W * (N + p), W, 1u << (W - 1)); sksign(b);
      b = k.sk; set(b, 8 + W * 2 * N + 8 * p, 8, 0x80); sksign(b);
    }
    sksign(Bytes(k.SK, 0)); sksign(Bytes(k.SK, 0xff));
    sksign(k.sk);
    drv::end();
  }
  // a key pair of the library's own, all the way
  void e2e(const std::vector<size_t>& lens)
  {
    drv::begin("e2e");
    Guard<uint8_t> pk(k.PK), sk(k.SK);
    rng.bytes(pk.p, k.PK); rng.bytes(sk.p, k.SK);
    drv::call(J().kv("op", "pairgen"), 400);
    falcon::keygen<N>(pk.p, sk.p);
    drv::ret(J().kvb("mem", pk.intact() && sk.intact()));
    made.clear();
    k.pk.assign(pk.p, pk.p + k.PK); k.sk.assign(sk.p, sk.p + k.SK);
    for (size_t n : lens) {
      const Bytes m0 = msg(n);
      Guard<uint8_t> m(n), sig(SG);
      std::copy(m0.begin(), m0.end(), m.p);
      rng.bytes(sig.p, SG);
      drv::call(J().kv("op", "osign").kv("mlen", static_cast<int64_t>(n)), 60);
      const bool ok = falcon::sign<N>(static_cast<const uint8_t*>(sk.p), m.p, n, sig.p);
      drv::ret(J().kvb("ok", ok).kvb("mem", m.intact() && sig.intact() && sk.intact() && std::equal(m0.begin(), m0.end(), m.p) && std::equal(k.sk.begin(), k.sk.end(), sk.p)));
      made.emplace_back(m0, Bytes(sig.p, sig.p + SG));
    }
    for (size_t i = made.size(); i--;) verify(i);
    drv::end();
  }
  double dc512 = 2.1, dc1024 = 2.1;
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  const uint64_t seed = static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1));
  drv::Rng rng(seed);
  env::ctl.det = true; env::ctl.det_seed = seed;
  const std::string what = drv::opt(argc, argv, "--what", "all");
  const long k = drv::opti(argc, argv, "--k", 1);
  const size_t skip = static_cast<size_t>(drv::opti(argc, argv, "--skip", 0));
  auto run = [&]<size_t N>(Run<N>& r, auto keys, auto skew) {
    r.lays();
    if (what == "pair") for (auto& key : keys) r.pair(key, rng.below(300));
    if (what == "skew") for (auto& key : skew) r.pair(key, rng.below(300));
    // out of the ordinary: large G, f with an evaluation next to zero
    if (what == "wide" || what == "small") for (auto& key : keys::load<N>(static_cast<size_t>(k), skip, what.c_str())) r.pair(key, rng.below(300));
    if (what == "low") for (auto& key : keys) r.low(key, rng.below(300));
    if (what == "session") {
      // block boundaries of the hash (rate 136, salt 40) and long messages among them
      static const std::vector<size_t> lens[] = { { 0, 1, 64, 0 }, { 96, 0, 95, 97 }, { 232, 0, 231, 136 }, { 65496, 70001, 2, 0 }, { 40, 56, 255, 256 }, { 4056, 4096, 3, 65535 } };
      size_t at = skip;
      for (auto& key : keys) { auto l = lens[at++ % 6]; for (size_t& v : l) if (!v && &v != l.data()) v = rng.below(2000); r.session(key, l); }
    }
    if (what == "sksign") for (auto& key : keys) r.sksigns(key);
    if (what == "e2e") for (long t = 0; t < k; t++) r.e2e({ 0, 1, 33, static_cast<size_t>(rng.below(3000)) });
    if (what == "edges") r.edges(static_cast<size_t>(k), skip);
    if (what == "retries") {
      const double d = std::atof(drv::opt(argc, argv, "--d", "0"));
      if (d > 0) r.dc512 = r.dc1024 = d;
      for (long t = 0; t < k; t++) {
        r.retries(skew[static_cast<size_t>(t) % skew.size()], "c", false);
        r.retries(keys[static_cast<size_t>(t) % keys.size()], "l", true);
        r.retries(skew[static_cast<size_t>(t) % skew.size()], "lcl", true);
        r.retries(skew[static_cast<size_t>(t) % skew.size()], "cc", false);
        if (!t) { r.retries(keys[0], "llllllllcl", N != 512); r.retries(keys[1 % keys.size()], N == 512 ? "1300m50l" : "300m", N == 512); if (k > 1 || N == 512) r.retries(skew[0], "70c90m", N != 512); }
      }
    }
  };
  const long n = drv::opti(argc, argv, "--lg", 9);
  if (n == 9) { Run<512> r{ rng }; run(r, keys::load<512>(static_cast<size_t>(k), skip), keys::load<512>(2, 0, "skew")); }
  else { Run<1024> r{ rng }; run(r, keys::load<1024>(static_cast<size_t>(k), skip), keys::load<1024>(1, 0, "skew")); }
  return drv::close();
}
