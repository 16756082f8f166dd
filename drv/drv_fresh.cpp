// Generators and salts (C14): what seeds them, what they hand out, what
// becomes of it.  The device behind std::random_device is a stand-in.
#include "drv.hpp"
#include "prng_tap.hpp"
#include "keys.hpp"
#include "script.hpp"
#include "falcon.hpp"
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <random>
#include <sys/random.h>
#include <thread>
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
namespace env = shake256::env;

// ---------------------------------------------------------------- the device
struct Device
{
  uint64_t seed = 1;
  std::atomic<int64_t> next{ 0 };
  std::function<uint32_t(int64_t, uint32_t)> alter; // word number within the construction, word
};
static Device device;
static thread_local std::vector<int64_t> drawn;    // words taken by this thread
static uint32_t device_word()
{
  const int64_t i = device.next++;
  drv::Rng r(device.seed * 1000003 + static_cast<uint64_t>(i));
  r.next();
  uint32_t w = static_cast<uint32_t>(r.next() >> 16);
  if (device.alter) w = device.alter(static_cast<int64_t>(drawn.size()), w);
  drawn.push_back(i);
  return w;
}
std::random_device::result_type std::random_device::_M_getval() { return device_word(); }
static void device_bytes(void* p, size_t n)
{
  auto* o = static_cast<uint8_t*>(p);
  for (size_t i = 0; i < n; i += 4) { const uint32_t w = device_word(); for (size_t j = i; j < n && j < i + 4; j++) o[j] = static_cast<uint8_t>(w >> (8 * (j - i))); }
}
extern "C" ssize_t getrandom(void* p, size_t n, unsigned) { device_bytes(p, n); return static_cast<ssize_t>(n); }
extern "C" int getentropy(void* p, size_t n) { device_bytes(p, n); return 0; }

// ---------------------------------------------------------------- observation
struct Gen { uint64_t id; Bytes seed; std::vector<int64_t> dev; };
struct Obs
{
  std::vector<Gen> gens;
  std::vector<std::pair<uint64_t, Bytes>> reads; // runs of the same generator
  Bytes seed;
  static void hook(void* a, env::kind_t k, uint64_t id, bool prng, const uint8_t* p, size_t n)
  {
    auto& o = *static_cast<Obs*>(a);
    if (k == env::SEED) o.seed.assign(p, p + n);
    if (k == env::NEW) { o.gens.push_back({ id, o.seed, drawn }); o.seed.clear(); drawn.clear(); }
    if (prng && k == env::READ) {
      if (o.reads.empty() || o.reads.back().first != id) o.reads.push_back({ id, {} });
      o.reads.back().second.insert(o.reads.back().second.end(), p, p + n);
    }
  }
};
static uint64_t key(uint64_t id) { return id; }

// events of a history, with generators numbered in the order of creation
struct Hist
{
  struct G { int64_t no; shake256::impl::sponge_t st; int64_t pos; shake256::impl::script_t sc; };
  Bytes script; // played by the next generator
  std::map<uint64_t, G> gens;
  uint64_t space = 0; // generator numbers of different threads overlap
  void news(const Obs& o, uint64_t off)
  {
    for (auto& g : o.gens) {
      drv::event(J().kv("op", "new").kva("seed", g.seed.data(), g.seed.size()).kva("dev", g.dev.data(), g.dev.size()));
      G x{ static_cast<int64_t>(gens.size()) + 1, {}, 0, {} };
      x.sc.b = script;
      script.clear();
      x.st.absorb(g.seed.data(), g.seed.size());
      x.st.finalize();
      gens.insert_or_assign(key(g.id) + off, x);
    }
  }
  void reads(const Obs& o, uint64_t off)
  {
    for (auto& [id, b] : o.reads) {
      auto it = gens.find(key(id) + off);
      Bytes ref(b.size());
      int64_t no = 0, from = 0;
      if (it != gens.end()) { { const size_t c = it->second.sc.play(ref.data(), ref.size()); it->second.st.read(ref.data() + c, ref.size() - c); } no = it->second.no; from = it->second.pos; it->second.pos += static_cast<int64_t>(b.size()); }
      drv::event(J().kv("op", "read").kv("g", no).kv("from", from).kva("bytes", b.data(), b.size()).kva("ref", ref.data(), ref.size()));
    }
  }
  void all(const Obs& o, uint64_t off = 0) { news(o, off); reads(o, off); }
};
struct Watch
{
  Obs o;
  Watch() { drawn.clear(); env::ctl.hook = Obs::hook; env::ctl.arg = &o; }
  ~Watch() { env::ctl.hook = nullptr; }
};

// ---------------------------------------------------------------- histories
// seeds with one bit of the device flipped at a time
static Bytes seed_with(int64_t word, uint32_t mask, size_t* words = nullptr)
{
  device.alter = [=](int64_t k, uint32_t w) { return k == word ? w ^ mask : w; };
  device.next = 0; // the same words for every construction
  Watch w;
  prng::prng_t r;
  uint8_t b; r.read(&b, 1);
  device.alter = nullptr;
  if (words) *words = w.o.gens.empty() ? 0 : w.o.gens[0].dev.size();
  return w.o.gens.empty() ? Bytes{} : w.o.gens[0].seed;
}
static void influence()
{
  drv::begin("influence");
  drv::call(J().kv("op", "influence"));
  size_t words = 0;
  const Bytes s0 = seed_with(-1, 0, &words);
  using Row = std::array<uint64_t, 4>;
  auto row = [](const Bytes& a, const Bytes& b) { Row r{}; for (size_t i = 0; i < 256 && i / 8 < a.size() && i / 8 < b.size(); i++) if (((a[i / 8] ^ b[i / 8]) >> (i % 8)) & 1) r[i / 64] |= 1ull << (i % 64); return r; };
  std::vector<Row> d;
  for (size_t k = 0; k < words && k < 256; k++) for (int b = 0; b < 32; b++) d.push_back(row(s0, seed_with(static_cast<int64_t>(k), 1u << b)));
  // elimination, remembering which flips were added
  std::vector<std::pair<Row, std::vector<int>>> piv(256);
  std::vector<bool> has(256);
  std::vector<std::vector<int>> diffs;
  auto top = [](const Row& r) { for (int i = 255; i >= 0; i--) if ((r[static_cast<size_t>(i) / 64] >> (i % 64)) & 1) return i; return -1; };
  auto tog = [](std::vector<int>& v, const std::vector<int>& u) { for (int x : u) { auto it = std::find(v.begin(), v.end(), x); if (it == v.end()) v.push_back(x); else v.erase(it); } };
  for (auto& r0 : d) {
    Row r = r0;
    std::vector<int> by{ static_cast<int>(diffs.size()) + 1 };
    int t;
    while ((t = top(r)) >= 0 && has[static_cast<size_t>(t)]) { auto& p = piv[static_cast<size_t>(t)]; for (size_t i = 0; i < 4; i++) r[i] ^= p.first[i]; tog(by, p.second); }
    if (t < 0) continue;
    std::vector<int> bits;
    for (int i = 0; i < 256; i++) if ((r0[static_cast<size_t>(i) / 64] >> (i % 64)) & 1) bits.push_back(i);
    diffs.push_back(bits);
    piv[static_cast<size_t>(t)] = { r, by }; has[static_cast<size_t>(t)] = true;
  }
  std::vector<std::vector<int>> by;
  for (int j = 0; j < 256; j++) {
    Row r{};
    r[static_cast<size_t>(j) / 64] |= 1ull << (j % 64);
    std::vector<int> b;
    int t;
    while ((t = top(r)) >= 0 && has[static_cast<size_t>(t)]) { auto& p = piv[static_cast<size_t>(t)]; for (size_t i = 0; i < 4; i++) r[i] ^= p.first[i]; tog(b, p.second); }
    if (t >= 0) b.clear();
    by.push_back(b);
  }
  if (!words) { by.clear(); }
  J j; j.kv("words", static_cast<int64_t>(words));
  auto list = [&](const char* k, const std::vector<std::vector<int>>& v) { j.key(k).raw("["); for (size_t i = 0; i < v.size(); i++) { if (i) j.raw(","); j.arr(v[i].data(), v[i].size()); } j.raw("]"); };
  list("diffs", diffs); list("by", by);
  drv::ret(j);
  drv::end();
}
// two constructions whose device words differ in one word only (or agree in it only)
static void coincide()
{
  size_t words = 0;
  seed_with(-1, 0, &words);
  for (int mode = 0; mode < 2; mode++) {
    drv::begin(mode ? "one-word-in-common" : "one-word-apart");
    Hist h;
    for (size_t k = 0; k < 40 && k <= words; k++) {
      // construction k: base words with word k-1 complemented, or only word k-1 those of the base
      device.next = static_cast<int64_t>(1000 * (k + 1));
      device.alter = [=](int64_t n, uint32_t w) {
        drv::Rng r(77 + static_cast<uint64_t>(n)); r.next();
        const uint32_t base = static_cast<uint32_t>(r.next() >> 16);
        return mode ? (n + 1 == static_cast<int64_t>(k) || k == 0 ? base : w) : (n + 1 == static_cast<int64_t>(k) ? ~base : base);
      };
      Watch w;
      prng::prng_t g;
      uint8_t b[48]; g.read(b, sizeof b);
      h.all(w.o);
      device.alter = nullptr;
    }
    drv::end();
  }
}
static void streams(drv::Rng& rng, long k)
{
  drv::begin("reads");
  Hist h;
  std::vector<std::unique_ptr<prng::prng_t>> g;
  auto rd = [&](size_t i, size_t n) { Guard<uint8_t> b(n); Watch w; drv::call(J()); g[i]->read(b.p, n); drv::arm(0); h.all(w.o); };
  for (int i = 0; i < 4; i++) { Watch w; g.push_back(std::make_unique<prng::prng_t>()); h.all(w.o); }
  for (size_t n : { 1, 9, 40, 1, 135, 136, 137, 271, 272, 1, 1, 1, 1000, 4096, 4097, 70000, 3 }) rd(0, n);
  for (int i = 0; i < 300; i++) rd(1, 1);
  for (long t = 0; t < 60 * k; t++) rd(static_cast<size_t>(rng.below(4)), static_cast<size_t>(1 + rng.below(t % 4 ? 40 : 400)));
  drv::end();
  drv::begin("many");
  Hist h2;
  for (int i = 0; i < 300 * k; i++) { Watch w; prng::prng_t r; uint8_t b[40]; r.read(b, 40); h2.all(w.o); }
  drv::end();
}
// a generator in use for long: digests of pieces of what it hands out, and of
// the same pieces of its seed's stream
static void marathon(drv::Rng& rng, int64_t small, int64_t mib)
{
  drv::begin("marathon");
  Hist h;
  std::unique_ptr<prng::prng_t> g;
  { Watch w; g = std::make_unique<prng::prng_t>(); h.all(w.o); }
  auto& st = h.gens.begin()->second.st;
  std::vector<uint8_t> b(1 << 20), ref(1 << 20);
  int64_t pos = 0;
  auto digest = [](const Bytes& v, size_t n) { uint64_t a = 0xcbf29ce484222325ull; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t x; std::memcpy(&x, v.data() + i, 8); a = (a ^ x) * 0x9e3779b97f4a7c15ull; a ^= a >> 29; } for (; i < n; i++) a = (a ^ v[i]) * 0x100000001b3ull; return static_cast<int64_t>((a ^ (a >> 31)) & 0x7fffffff); };
  std::vector<int64_t> got, want;
  int64_t from = 0;
  auto flush = [&] {
    if (got.empty()) return;
    drv::event(J().kv("op", "read").kv("g", 1).kv("from", from & ((1 << 30) - 1)).kv("len", pos - from).kva("bytes", got.data(), got.size()).kva("ref", want.data(), want.size()));
    got.clear(); want.clear(); from = pos;
  };
  auto piece = [&](size_t n) { st.read(ref.data(), n); got.push_back(digest(b, n)); want.push_back(digest(ref, n)); pos += static_cast<int64_t>(n); if (got.size() >= 64) flush(); };
  for (int64_t left = small; left > 0;) {
    size_t n = 0;
    drv::call(J(), 60);
    for (; n + 64 < b.size() && left > 0; left--) { const size_t k = left % 1000 ? 1 + rng.below(9) : 40; g->read(b.data() + n, k); n += k; }
    drv::arm(0);
    piece(n);
  }
  for (int64_t i = 0; i < mib; i++) { drv::call(J(), 60); g->read(b.data(), b.size()); drv::arm(0); piece(b.size()); }
  flush();
  drv::end();
}
template<size_t N>
struct Run
{
  using K = keys::Key<N>;
  static constexpr size_t TS = N * (N == 512 ? 10 : 11);
  drv::Rng& rng;
  std::vector<K> ks;
  std::vector<fft::cmplx> B = std::vector<fft::cmplx>(4 * N), T = std::vector<fft::cmplx>(TS);

  void keygen(Hist& h)
  {
    Watch w;
    Bytes pk(K::PK), sk(K::SK);
    drv::call(J(), 400);
    falcon::keygen<N>(pk.data(), sk.data());
    drv::arm(0);
    h.news(w.o, 0);
    // only what came first: a key generation draws megabytes
    if (!w.o.reads.empty() && w.o.reads[0].second.size() > 20000) { w.o.reads.resize(1); w.o.reads[0].second.resize(20000); }
    h.reads(w.o, 0);
    drv::event(J().kv("op", "keyed"));
  }
  void out(Hist& h, const Obs& o, bool ok, const Bytes& sig, uint64_t off = 0)
  {
    h.all(o, off);
    drv::event(J().kv("op", "signed").kvb("ok", ok).kva("salt", sig.begin() + 1, 40));
  }
  void one(Hist& h, const K& k, const Bytes& m)
  {
    Watch w;
    Bytes sig(K::SG);
    drv::call(J(), 60);
    const bool ok = falcon::sign<N>(static_cast<const uint8_t*>(k.sk.data()), m.data(), m.size(), sig.data());
    drv::arm(0);
    out(h, w.o, ok, sig);
  }
  void pre(Hist& h, prng::prng_t& g, const Bytes& m)
  {
    Watch w;
    Bytes sig(K::SG);
    drv::call(J(), 60);
    falcon::sign<N>(static_cast<const fft::cmplx*>(B.data()), static_cast<const fft::cmplx*>(T.data()), m.data(), m.size(), sig.data(), g);
    drv::arm(0);
    out(h, w.o, true, sig);
  }
  void go(long k, bool gen)
  {
    ks = keys::load<N>(2, static_cast<size_t>(rng.below(16)));
    falcon::compute_matrix_B<N>(ks[0].f, ks[0].g, ks[0].F, ks[0].G, B.data());
    falcon::compute_falcon_tree<N>(B.data(), T.data());
    const Bytes m{ 1, 2, 3 };
    {
      drv::begin("session");
      Hist h;
      Obs o;
      std::vector<std::unique_ptr<prng::prng_t>> g;
      for (int i = 0; i < 2; i++) { Watch w; g.push_back(std::make_unique<prng::prng_t>()); h.all(w.o); }
      if (gen) keygen(h);
      one(h, ks[0], m); one(h, ks[0], m); pre(h, *g[0], m); pre(h, *g[0], m); pre(h, *g[1], m);
      one(h, ks[1], m); pre(h, *g[0], {});
      if (gen) keygen(h);
      one(h, ks[0], m); pre(h, *g[1], m);
      for (long t = 0; t < 6 * k; t++) { Bytes x(rng.below(50)); if (rng.coin()) one(h, ks[rng.below(2)], x); else pre(h, *g[rng.below(2)], x); }
      drv::end();
    }
    { // candidates that are rejected, then the stream of the generator
      const auto skew = keys::load<N>(1, 0, "skew");
      for (const char* kinds : { "l", "c", "lc", "ll" }) {
        drv::begin("rejected");
        Hist h;
        Script sc{ rng };
        Bytes b = sc.salt();
        for (const char* p = kinds; *p; p++) { if (*p == 'l') sc.candidate(b, N, 1.9, 1.9); else sc.candidate(b, N, 0.3, 2.1); }
        h.script = b;
        env::ctl.script = b;
        one(h, skew[0], m);
        drv::end();
      }
      drv::begin("rejected-session");
      falcon::compute_matrix_B<N>(skew[0].f, skew[0].g, skew[0].F, skew[0].G, B.data());
      falcon::compute_falcon_tree<N>(B.data(), T.data());
      Hist h;
      Script sc{ rng };
      Bytes b = sc.salt();
      sc.candidate(b, N, 1.9, 1.9); sc.candidate(b, N, 0.3, 2.1);
      h.script = b;
      env::ctl.script = b;
      std::unique_ptr<prng::prng_t> g;
      { Watch w; g = std::make_unique<prng::prng_t>(); h.all(w.o); }
      for (int i = 0; i < 3; i++) pre(h, *g, m);
      drv::end();
    }
    {
      // several threads, the same key and message
      drv::begin("threads");
      Hist h;
      constexpr int M = 4;
      struct Part { std::vector<Obs> o; std::vector<Bytes> sig; std::vector<bool> ok; };
      std::vector<Part> parts(M);
      std::vector<std::thread> th;
      drv::call(J(), 120);
      for (int i = 0; i < M; i++) th.emplace_back([&, i] {
        for (int j = 0; j < 3; j++) {
          parts[static_cast<size_t>(i)].o.emplace_back();
          Watch w;
          Bytes sig(K::SG);
          const bool ok = falcon::sign<N>(static_cast<const uint8_t*>(ks[0].sk.data()), m.data(), m.size(), sig.data());
          parts[static_cast<size_t>(i)].o.back() = w.o;
          parts[static_cast<size_t>(i)].sig.push_back(sig); parts[static_cast<size_t>(i)].ok.push_back(ok);
        }
      });
      for (auto& t : th) t.join();
      drv::arm(0);
      for (size_t i = 0; i < M; i++) for (size_t j = 0; j < 3; j++) out(h, parts[i].o[j], parts[i].ok[j], parts[i].sig[j], (i + 1) << 32);
      drv::end();
    }
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  const uint64_t seed = static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1));
  drv::Rng rng(seed);
  device.seed = seed;
  const long k = drv::opti(argc, argv, "--k", 1), lg = drv::opti(argc, argv, "--lg", 9);
  drv::head(J().kv("n", lg == 9 ? 512 : 1024));
  // a session's words are never drawn again
  auto apart = [&](int n) { device.next = static_cast<int64_t>(n) * 100000000; };
  if (lg == 9) {
    influence();
    coincide();
    apart(1);
    streams(rng, k);
    apart(4);
    marathon(rng, 1 << 20, drv::opti(argc, argv, "--mib", 200));
    apart(2);
    Run<512>{ rng, {} }.go(k, true);
  } else {
    apart(3);
    Run<1024>{ rng, {} }.go(k, k > 1);
  }
  return drv::close();
}
