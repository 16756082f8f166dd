// Message hashing (C07): what is absorbed, what is squeezed, what comes out -
// directly and through the signing and verification entry points.
#include "drv.hpp"
#include "keys.hpp"
#include "prng_tap.hpp"
#include "falcon.hpp"
#include "hashing.hpp"
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
namespace env = shake256::env;

// observed operations of one hash instance
struct Obs
{
  std::string ops;         // A F R in order, runs merged
  uint64_t absorbed = 0;   // bytes
  bool match = true;       // absorbed bytes so far equal salt . message
  const uint8_t* salt = nullptr; size_t slen = 0;
  const uint8_t* msg = nullptr; uint64_t mlen = 0;
  bool zero_msg = false;   // the message is all zeros (too long to compare)
  Bytes kept;              // absorbed bytes, when short
  Bytes xof;
  size_t instances = 0;
  uint64_t last = 0;
  static void hook(void* a, env::kind_t k, uint64_t id, bool prng, const uint8_t* p, size_t n)
  {
    if (prng) return;
    auto& o = *static_cast<Obs*>(a);
    if (id != o.last) { o.last = id; o.instances++; }
    if (k == env::ABSORB && !n) return;
    const char c = k == env::ABSORB ? 'A' : k == env::FINALIZE ? 'F' : 'R';
    if (o.ops.empty() || o.ops.back() != c || c == 'F') o.ops += c;
    if (k == env::ABSORB) {
      if (o.absorbed + n <= 4096) o.kept.insert(o.kept.end(), p, p + n);
      o.absorbed += n;
    } else if (k == env::READ) o.xof.insert(o.xof.end(), p, p + n);
  }
  void put(J& j) const
  {
    J t; t.kv("ops", ops.c_str()).kva("kept", kept.data(), kept.size()).kv("inst", static_cast<int64_t>(instances)).key("len").u64(absorbed);
    j.key("obs").raw("{" + t.s + "}");
    // words squeezed, most significant byte first
    std::vector<int> w;
    for (size_t i = 0; i + 1 < xof.size(); i += 2) w.push_back(xof[i] << 8 | xof[i + 1]);
    j.kva("words", w.data(), w.size());
  }
};

// word sequences with rejections placed by class
static Bytes stream(drv::Rng& rng, size_t n, long kind, size_t at)
{
  const int edge[] = { 0, 1, 12288, 12289, 12290, 24577, 24578, 49155, 49156, 61443, 61444, 61445, 61446, 65534, 65535, 32768 };
  Bytes b;
  const size_t words = n * 2 + 400;
  for (size_t i = 0; i < words; i++) {
    uint32_t w;
    switch (kind % 8) {
      case 0: w = static_cast<uint32_t>(rng.below(65536)); break;
      case 1: w = static_cast<uint32_t>(edge[rng.below(16)]); break;
      case 2: w = i < 68 ? 61445 + static_cast<uint32_t>(rng.below(4091)) : static_cast<uint32_t>(rng.below(65536)); break;      // a whole first block rejected
      case 3: w = i % 68 == 67 || i % 68 == 0 ? 65535 : static_cast<uint32_t>(rng.below(61445)); break;                            // block edges rejected
      case 4: w = static_cast<uint32_t>(i == at ? 61445 : i == at + 1 ? 61444 : rng.below(61445)); break;                          // one rejection at a chosen word
      case 5: w = i >= n - 2 && i < n + 138 ? 65000 : static_cast<uint32_t>(rng.below(61445)); break;                              // rejections around the last coefficient
      case 6: w = static_cast<uint32_t>(i % 2 ? rng.below(61445) : 61445 + rng.below(4091)); break;                               // every other
      default: w = static_cast<uint32_t>(rng.below(61445)); break;                                                                 // none
    }
    b.push_back(static_cast<uint8_t>(w >> 8)); b.push_back(static_cast<uint8_t>(w));
  }
  return b;
}

template<size_t N>
struct Run
{
  drv::Rng& rng;
  std::vector<keys::Key<N>> ks;

  void direct(const char* name, const Bytes& salt, const Bytes& msg, const Bytes& xof)
  {
    Guard<uint8_t> s(salt.size()), m(msg.size());
    Guard<ff::ff_t> p(N);
    std::copy(salt.begin(), salt.end(), s.p);
    std::copy(msg.begin(), msg.end(), m.p);
    for (size_t i = 0; i < N; i++) p[i].v = static_cast<uint16_t>(rng.below(65536));
    Obs o;
    env::ctl.hook = Obs::hook; env::ctl.arg = &o; env::ctl.xof = xof;
    drv::begin(name);
    J j; j.kv("op", "hash").kva("salt", salt.data(), salt.size()).kva("msg", msg.data(), msg.size()); drv::call(j);
    hashing::hash_to_point<N>(s.p, salt.size(), m.p, msg.size(), p.p);
    env::ctl.hook = nullptr; env::ctl.xof.clear();
    J r; o.put(r);
    std::vector<int> v(N); for (size_t i = 0; i < N; i++) v[i] = p[i].v;
    r.kva("poly", v.data(), N).kvb("mem", s.intact() && m.intact() && p.intact() && std::equal(salt.begin(), salt.end(), s.p) && std::equal(msg.begin(), msg.end(), m.p));
    drv::ret(r); drv::end();
  }
  // absorbed bytes seen from signing and verification with one key
  void entry(const Bytes& msg, long t)
  {
    auto& k = ks[static_cast<size_t>(t) % ks.size()];
    Guard<uint8_t> m(msg.size()), sig(k.SG), sk(k.SK), pk(k.PK);
    std::copy(msg.begin(), msg.end(), m.p); std::copy(k.sk.begin(), k.sk.end(), sk.p); std::copy(k.pk.begin(), k.pk.end(), pk.p);
    drv::begin("entry");
    Obs o;
    env::ctl.hook = Obs::hook; env::ctl.arg = &o;
    J j; j.kv("op", "signhash").kva("msg", msg.data(), msg.size()); drv::call(j);
    bool done;
    if (t % 2) done = falcon::sign<N>(static_cast<const uint8_t*>(sk.p), m.p, msg.size(), sig.p);
    else {
      std::vector<fft::cmplx> B(4 * N), T(N * (N == 512 ? 10 : 11));
      falcon::compute_matrix_B<N>(k.f, k.g, k.F, k.G, B.data());
      falcon::compute_falcon_tree<N>(B.data(), T.data());
      prng::prng_t rng_;
      falcon::sign<N>(B.data(), T.data(), m.p, msg.size(), sig.p, rng_);
      done = true;
    }
    env::ctl.hook = nullptr;
    J r; o.put(r); r.kvb("ok", done).kva("salt", sig.p + 1, 40);
    drv::ret(r);
    Obs o2;
    env::ctl.hook = Obs::hook; env::ctl.arg = &o2;
    drv::call(J().kv("op", "verhash").kva("msg", msg.data(), msg.size()).kva("salt", sig.p + 1, 40));
    const bool v = falcon::verify<N>(pk.p, m.p, msg.size(), sig.p);
    env::ctl.hook = nullptr;
    J r2; o2.put(r2); r2.kvb("ok", v);
    drv::ret(r2); drv::end();
  }
  // messages too long to write down: lengths only
  void huge(uint64_t mlen, long t)
  {
    void* m = mmap(nullptr, mlen, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return;
    auto& k = ks[static_cast<size_t>(t) % ks.size()];
    drv::begin("huge");
    for (int op = 0; op < 3; op++) {
      Bytes sig(k.SG), salt(40);
      std::vector<ff::ff_t> p(N);
      rng.bytes(salt.data(), 40);
      Obs o;
      env::ctl.hook = Obs::hook; env::ctl.arg = &o; env::ctl.absorb_limit = 1 << 22;
      J j; j.kv("op", "long").kv("fn", op == 0 ? "hash" : op == 1 ? "sign" : "verify").key("mlen").u64(mlen); drv::call(j, 120);
      bool okc = true;
      if (op == 0) hashing::hash_to_point<N>(salt.data(), 40, static_cast<const uint8_t*>(m), mlen, p.data());
      else if (op == 1) okc = falcon::sign<N>(static_cast<const uint8_t*>(k.sk.data()), static_cast<const uint8_t*>(m), mlen, sig.data());
      else {
        // a well-formed signature, so that the message is hashed
        sig[0] = static_cast<uint8_t>(0x30 | (N == 512 ? 9 : 10));
        std::copy(salt.begin(), salt.end(), sig.begin() + 1);
        size_t n = 41 * 8;
        for (size_t i = 0; i < N; i++) { n += 8; sig[n >> 3] |= static_cast<uint8_t>(0x80u >> (n & 7)); n++; }
        falcon::verify<N>(const_cast<uint8_t*>(k.pk.data()), static_cast<const uint8_t*>(m), mlen, sig.data());
      }
      env::ctl.hook = nullptr; env::ctl.absorb_limit = SIZE_MAX;
      J r; r.kvb("ok", okc).key("len").u64(o.absorbed);
      drv::ret(r);
    }
    drv::end();
    munmap(m, mlen);
  }
  void go(long k)
  {
    J h; h.kv("n", N); drv::head(h);
    auto rnd = [&](size_t n) { Bytes b(n); rng.bytes(b.data(), n); return b; };
    for (size_t n : { 0, 1, 2, 31, 32, 39, 40, 95, 96, 97, 134, 135, 136, 137, 231, 232, 233, 368, 1000, 1024, 4000 }) direct("length", rnd(40), rnd(n), {});
    for (size_t n : { 0, 1, 39, 41, 136, 200 }) direct("salt", rnd(n), rnd(33), {});
    for (long t = 0; t < 24 * k; t++) direct("words", rnd(40), rnd(static_cast<size_t>(rng.below(300))), stream(rng, N, t, 0));
    for (long t = 0; t < 24 * k; t++) direct("edge", rnd(40), rnd(10), stream(rng, N, 4, t % 3 == 0 ? 66 + static_cast<size_t>(rng.below(3)) : t % 3 == 1 ? N - 2 + static_cast<size_t>(rng.below(4)) : static_cast<size_t>(rng.below(N))));
    for (long t = 0; t < 8 * k; t++) direct("random", rnd(40), rnd(static_cast<size_t>(rng.below(600))), {});
    ks = keys::load<N>(k > 1 ? 8 : 2);
    for (size_t n : { 0, 1, 32, 95, 96, 97, 136, 137, 300, 1500 }) { entry(rnd(n), static_cast<long>(rng.below(100)) * 2); entry(rnd(n), static_cast<long>(rng.below(100)) * 2 + 1); }
    for (uint64_t n : { 1ull << 16, (1ull << 16) + 1, 1ull << 20, (1ull << 31) + 3, 1ull << 32, (1ull << 32) + 5 }) huge(n, 0);
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  env::ctl.det = true;
  const long k = drv::opti(argc, argv, "--k", 1);
  Run<512>{ rng, {} }.go(k);
  Run<1024>{ rng, {} }.go(k);
  return drv::close();
}
