// Key generation (C03, C18): both entry points, with the bytes their generator
// hands out; candidates of chosen kinds are played first.
#include "drv.hpp"
#include "keys.hpp"
#include "prng_tap.hpp"
#include "falcon.hpp"
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
using fft::cmplx;
using CV = std::vector<cmplx>;
namespace env = shake256::env;

struct Seen
{
  Bytes b;
  std::vector<uint64_t> inst;
  static void hook(void* a, env::kind_t k, uint64_t id, bool prng, const uint8_t* p, size_t n)
  {
    auto& s = *static_cast<Seen*>(a);
    if (prng && k == env::READ) {
      s.b.insert(s.b.end(), p, p + n);
      if (s.inst.empty() || s.inst.back() != id) s.inst.push_back(id);
    }
  }
};

template<size_t LG>
static std::vector<int> order()
{
  constexpr size_t n = size_t(1) << LG;
  CV x(n);
  x[1] = 1;
  fft::fft<LG>(x.data());
  std::vector<int> o;
  for (auto z : x) {
    double t = std::arg(z) / M_PI * static_cast<double>(n);
    if (t < 0) t += 2 * static_cast<double>(n);
    o.push_back(static_cast<int>(std::lround((t - 1) / 2)));
  }
  return o;
}

// one sample of value v, accepted at once: 9 + 1 + 1 bytes
static void frame(Bytes& o, drv::Rng& rng, int v)
{
  static constexpr double P[] = { 3024686241123004913666., 1564742784480091954050., 636254429462080897535., 199560484645026482916., 47667343854657281903., 8595902006365044063., 1163297957344668388., 117656387352093658. };
  const int z0 = v > 0 ? v - 1 : -v, b = v > 0;
  const double hi = z0 == 0 ? 4722366482869645213696. : P[z0 - 1], lo = P[z0];
  const unsigned __int128 w = static_cast<unsigned __int128>(lo + (hi - lo) * (0.2 + 0.6 * rng.unit()));
  for (int i = 0; i < 9; i++) o.push_back(static_cast<uint8_t>(w >> (8 * i)));
  o.push_back(static_cast<uint8_t>((rng.next() & 0xfe) | static_cast<unsigned>(b)));
  o.push_back(0);
}

struct Cand { int kind; bool sol; std::vector<int> f, g, F, G; };

template<size_t N>
struct Run
{
  static constexpr size_t LG = N == 512 ? 9 : 10, TS = N * (LG + 1);
  using K = keys::Key<N>;
  drv::Rng& rng;
  std::vector<Cand> cands;
  std::vector<K> ks;

  void load()
  {
    const std::string p = keys::dir(nullptr) + (N == 512 ? "/cand512.bin" : "/cand1024.bin");
    FILE* f = std::fopen(p.c_str(), "rb");
    if (!f) std::exit(2);
    std::vector<int16_t> b(2 + 4 * N);
    while (std::fread(b.data(), 2, b.size(), f) == b.size()) {
      auto part = [&](size_t k) { return std::vector<int>(b.begin() + 2 + static_cast<long>(k * N), b.begin() + 2 + static_cast<long>((k + 1) * N)); };
      cands.push_back({ b[0], b[1] != 0, part(0), part(1), part(2), part(3) });
    }
    std::fclose(f);
    ks = keys::load<N>(32);
  }
  static void lays()
  {
    std::vector<std::vector<int>> l{ order<1>(), order<2>(), order<3>(), order<4>(), order<5>(), order<6>(), order<7>(), order<8>(), order<9>() };
    if (N == 1024) l.push_back(order<10>());
    J j; j.kv("n", N).key("lays").raw("[");
    for (size_t i = 0; i < l.size(); i++) { if (i) j.raw(","); j.arr(l[i].data(), l[i].size()); }
    j.raw("]");
    drv::head(j);
  }
  Cand good(size_t i)
  {
    const K& k = ks[i % ks.size()];
    auto v = [](const int32_t* p) { return std::vector<int>(p, p + N); };
    return { 0, true, v(k.f), v(k.g), v(k.F), v(k.G) };
  }
  Cand pick(int kind, size_t nth)
  {
    std::vector<Cand*> c;
    for (auto& x : cands) if (x.kind == kind) c.push_back(&x);
    if (c.empty()) return good(nth);
    return *c[nth % c.size()];
  }
  void play(Bytes& o, const std::vector<int>& p)
  {
    constexpr int m = 4096 / N;
    for (size_t i = 0; i < N; i++) {
      int left = p[i];
      for (int j = m; j; j--) {
        int v = j == 1 ? left : left / j + static_cast<int>(rng.range(-1, 1));
        if (j > 1) { // keep the rest within reach
          while (std::abs(left - v) > 4 * (j - 1)) v += left > v ? 1 : -1;
        }
        if (v > 5) v = 5;
        if (v < -7) v = -7;
        frame(o, rng, v);
        left -= v;
      }
      if (left) std::abort();
    }
  }
  static long double gs2(const std::vector<int>& f, const std::vector<int>& g)
  {
    long double s = 0;
    for (size_t i = 0; i < N; i++) s += f[i] * f[i] + g[i] * g[i];
    return s;
  }
  // solution of the equation for the candidates that may have been dropped for it
  void witness(J& j, const std::vector<Cand>& cs)
  {
    j.key("wit").raw("[");
    bool first = true;
    for (auto& c : cs) {
      if (!first) j.raw(",");
      first = false;
      J w; w.kvb("sol", c.sol).kva("F", c.F.data(), c.sol ? N : 0).kva("G", c.G.data(), c.sol ? N : 0);
      j.raw("{" + w.s + "}");
    }
    j.raw("]");
  }
  void decode(const Bytes& sk, int32_t* f, int32_t* g, int32_t* F)
  {
    auto fld = [&](size_t at, unsigned w) { uint32_t v = 0; for (unsigned t = 0; t < w; t++) v |= static_cast<uint32_t>((sk[(at + t) >> 3] >> ((at + t) & 7)) & 1) << t; return v >> (w - 1) ? static_cast<int32_t>(v) - (1 << w) : static_cast<int32_t>(v); };
    constexpr unsigned W = K::W;
    for (size_t i = 0; i < N; i++) { f[i] = fld(8 + W * i, W); g[i] = fld(8 + W * (N + i), W); F[i] = fld(8 + W * 2 * N + 8 * i, 8); }
  }
  // candidates drawn by an unscripted run, with solutions where they matter
  std::vector<Cand> replay(const Bytes& b)
  {
    std::vector<Cand> cs;
    Seen s;
    env::ctl.script = b;
    prng::prng_t r;
    env::ctl.hook = Seen::hook; env::ctl.arg = &s;
    while (s.b.size() < b.size()) {
      std::vector<int32_t> f(N), g(N);
      ntru_gen::gen_poly<LG>(f.data(), r);
      ntru_gen::gen_poly<LG>(g.data(), r);
      Cand c{ 0, false, { f.begin(), f.end() }, { g.begin(), g.end() }, {}, {} };
      const long double q = gs2(c.f, c.g);
      if (q < 17000 && ntru_gen::gram_schmidt_norm<LG>(f.data(), g.data()) < 17000 && s.b.size() < b.size()) {
        auto a = std::make_unique<std::array<mpz_class, N>>(), e = std::make_unique<std::array<mpz_class, N>>();
        for (size_t i = 0; i < N; i++) { (*a)[i] = f[i]; (*e)[i] = g[i]; }
        const auto sol = ntru_gen::ntru_solve(*a, *e);
        c.sol = sol.second.is_solution();
        if (c.sol) for (size_t i = 0; i < N; i++) { c.F.push_back(static_cast<int>(sol.first.first[i].get_si())); c.G.push_back(static_cast<int>(sol.first.second[i].get_si())); }
      }
      cs.push_back(c);
    }
    env::ctl.hook = nullptr;
    return cs;
  }

  // kinds: one letter per candidate (0 good key, others kinds of the corpus: out of range 1 2, f not invertible 3 v,
  // Gram-Schmidt norm 4 p (first) 5 x (second), no solution 6 7, F out of range 8 9 a; good ones at a bound e P X w);
  // "n": unscripted; x*30. the very same candidate thirty times
  void gen(const std::string& kinds, size_t nth, bool low)
  {
    std::vector<Cand> cs;
    Bytes b;
    bool natural = false;
    std::vector<std::pair<size_t, size_t>> reps; // where the script repeats itself: offset, period
    for (size_t ci = 0; ci < kinds.size(); ci++) {
      const char c = kinds[ci];
      if (c == 'n') { natural = true; break; }
      static const std::string names = "e123456789apPxXvw";
      Cand x = c == '0' ? good(nth) : pick(static_cast<int>(names.find(c)), nth);
      nth++;
      cs.push_back(x);
      const size_t at = b.size();
      play(b, x.f); play(b, x.g);
      if (ci + 1 < kinds.size() && kinds[ci + 1] == '*') { // so many times the same
        size_t times = 0;
        for (ci += 2; ci < kinds.size() && kinds[ci] >= '0' && kinds[ci] <= '9'; ci++) times = 10 * times + static_cast<size_t>(kinds[ci] - '0');
        if (kinds[ci] != '.') std::abort();
        const Bytes one(b.begin() + static_cast<long>(at), b.end());
        reps.emplace_back(at, one.size());
        for (size_t t = 1; t < times; t++) b.insert(b.end(), one.begin(), one.end());
      }
    }
    // copies in direct succession are recorded once
    auto fold = [&](Bytes& v) {
      for (auto x = reps.rbegin(); x != reps.rend(); x++) {
        auto [at, len] = *x;
        size_t n = 0;
        while (at + (n + 2) * len <= v.size() && std::equal(v.begin() + static_cast<long>(at), v.begin() + static_cast<long>(at + len), v.begin() + static_cast<long>(at + (n + 1) * len))) n++;
        v.erase(v.begin() + static_cast<long>(at), v.begin() + static_cast<long>(at + n * len));
      }
    };
    size_t planned = b.size();
    { Bytes t = b; fold(t); planned = t.size(); }
    drv::begin("keygen-" + kinds);
    Seen s;
    const unsigned limit = N == 512 ? 200 : 400;
    if (!low) {
      Guard<uint8_t> pk(K::PK), sk(K::SK);
      rng.bytes(pk.p, K::PK); rng.bytes(sk.p, K::SK);
      drv::call(J().kv("op", "keygen").kv("kinds", kinds.c_str()), limit);
      // an unscripted run may draw a hundred candidates: of a few runs the one of least draws is recorded
      Bytes bp, bs;
      for (int t = natural && b.empty() && N == 512 ? 8 : 1; t; t--) {
        Seen s1;
        env::ctl.script = b;
        env::ctl.hook = Seen::hook; env::ctl.arg = &s1;
        falcon::keygen<N>(pk.p, sk.p);
        env::ctl.hook = nullptr;
        if (s.b.empty() || s1.b.size() < s.b.size() || !(pk.intact() && sk.intact())) { s = s1; bp.assign(pk.p, pk.p + K::PK); bs.assign(sk.p, sk.p + K::SK); }
        if (!(pk.intact() && sk.intact())) break;
      }
      std::copy(bp.begin(), bp.end(), pk.p);
      std::copy(bs.begin(), bs.end(), sk.p);
      fold(s.b);
      // runs of very many candidates are not recomputed
      const bool lng = natural && s.b.size() > (1u << 20) && s.b.size() > 2 * planned;
      if (lng) { s.b.clear(); cs.clear(); }
      else if (!natural && s.b.size() > (1u << 20) + planned) s.b.resize(planned); // every scripted candidate refused
      else if (natural || s.b.size() > planned) cs = replay(s.b);
      J r; r.kvb("lng", lng).kva("b", s.b.data(), s.b.size()).kva("pk", pk.p, K::PK).kva("sk", sk.p, K::SK).kv("inst", static_cast<int64_t>(s.inst.size())).kvb("mem", pk.intact() && sk.intact());
      witness(r, cs);
      drv::ret(r);
      // the library reads its keys back
      std::vector<int32_t> f(N), g(N), F(N);
      std::vector<ff::ff_t> h(N);
      const bool o1 = decoding::decode_skey<N>(sk.p, f.data(), g.data(), F.data()), o2 = decoding::decode_pkey<N>(pk.p, h.data());
      std::vector<int> hv(N);
      for (size_t i = 0; i < N; i++) hv[i] = h[i].v;
      drv::event(J().kv("op", "reload").kvb("ok", o1 && o2).kva("f", f.data(), N).kva("g", g.data(), N).kva("F", F.data(), N).kva("h", hv.data(), N));
    } else {
      Guard<cmplx> B(4 * N), T(TS);
      Guard<ff::ff_t> h(N);
      for (size_t i = 0; i < 4 * N; i++) B[i] = { rng.unit(), rng.unit() };
      for (size_t i = 0; i < TS; i++) T[i] = { rng.unit(), rng.unit() };
      drv::call(J().kv("op", "lowkey").kv("kinds", kinds.c_str()), limit);
      env::ctl.script = b;
      prng::prng_t gen;
      env::ctl.hook = Seen::hook; env::ctl.arg = &s;
      keygen::keygen<N>(B.p, T.p, h.p, N == 512 ? 165.736617183 : 168.388571447, gen);
      env::ctl.hook = nullptr;
      fold(s.b);
      const bool lng = natural && s.b.size() > (1u << 20) && s.b.size() > 2 * planned;
      if (lng) { s.b.clear(); cs.clear(); }
      else if (!natural && s.b.size() > (1u << 20) + planned) s.b.resize(planned); // every scripted candidate refused
      else if (natural || s.b.size() > planned) cs = replay(s.b);
      J r; r.kvb("lng", lng).kva("b", s.b.data(), s.b.size()).kvc("B", B.p, 4 * N).kvc("T", T.p, TS).kv("inst", 1).kvb("mem", B.intact() && T.intact() && h.intact());
      std::vector<int> hv(N);
      for (size_t i = 0; i < N; i++) hv[i] = h[i].v;
      r.kva("h", hv.data(), N);
      witness(r, cs);
      drv::ret(r);
    }
    drv::end();
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  const uint64_t seed = static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1));
  drv::Rng rng(seed);
  env::ctl.det = true; env::ctl.det_seed = seed;
  // list of runs: kinds, separated by commas; a trailing L calls the lower-level generator
  std::string list = drv::opt(argc, argv, "--runs", "0,0L");
  const long n = drv::opti(argc, argv, "--lg", 9);
  auto go = [&](auto& r) {
    r.load();
    r.lays();
    size_t at = static_cast<size_t>(drv::opti(argc, argv, "--nth", 0));
    for (size_t p = 0; p < list.size();) {
      size_t e = list.find(',', p);
      if (e == std::string::npos) e = list.size();
      std::string k = list.substr(p, e - p);
      const bool low = !k.empty() && k.back() == 'L';
      if (low) k.pop_back();
      r.gen(k, at++, low);
      p = e + 1;
    }
  };
  if (n == 9) { Run<512> r{ rng }; go(r); } else { Run<1024> r{ rng }; go(r); }
  return drv::close();
}
