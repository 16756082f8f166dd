// Makes corpus/edge{512,1024}.bin: for some keys of the corpus a salt, a
// message and the bytes of one candidate of the signer whose squared norm
// (kind 0) or compressed length in bits (kind 1) is just within or just beyond
// what is allowed.  Not run by any check.  Records of int32 kind, set, key
// index, excess, then 40 + 20 + 22 N bytes.
// clang++-18 -std=c++20 -O3 -march=native -I shim -I drv -I /repo/include tools/genedge.cpp -lgmpxx -lgmp -lpthread
#include "keys.hpp"
#include "script.hpp"
#include "prng_tap.hpp"
#include "falcon.hpp"
#include <mutex>
#include <set>
#include <thread>
using fft::cmplx;
namespace env = shake256::env;
static std::mutex mx;

template<size_t N>
struct Search
{
  static constexpr size_t LG = N == 512 ? 9 : 10;
  static constexpr int64_t B2 = N == 512 ? 34034726 : 70265242;
  static constexpr int64_t BITS = 8 * ((N == 512 ? 666 : 1280) - 41);
  const keys::Key<N>& k;
  drv::Rng rng;
  std::vector<cmplx> B{ 4 * N }, T{ N * (LG + 1) }, t0{ N }, t1{ N };
  std::vector<int> c{ std::vector<int>(N) };
  std::vector<int32_t> s1, s2;
  Search(const keys::Key<N>& key, uint64_t seed) : k(key), rng(seed)
  {
    B.resize(4 * N); T.resize(N * (LG + 1)); t0.resize(N); t1.resize(N); s1.resize(N); s2.resize(N);
    int32_t *f = const_cast<int32_t*>(k.f), *g = const_cast<int32_t*>(k.g), *F = const_cast<int32_t*>(k.F), *G = const_cast<int32_t*>(k.G);
    falcon::compute_matrix_B<N>(f, g, F, G, B.data());
    falcon::compute_falcon_tree<N>(B.data(), T.data());
  }
  void target(const Bytes& salt, const Bytes& msg)
  {
    std::vector<ff::ff_t> h(N);
    hashing::hash_to_point<N>(salt.data(), 40, msg.data(), msg.size(), h.data());
    std::vector<cmplx> v(N);
    for (size_t i = 0; i < N; i++) { c[i] = h[i].v; v[i] = static_cast<double>(h[i].v); }
    fft::fft<LG>(v.data());
    for (size_t i = 0; i < N; i++) { t0[i] = v[i] * B[3 * N + i] / cmplx{ 12289. }; t1[i] = -(v[i] * B[N + i] / cmplx{ 12289. }); }
  }
  // the candidate of those bytes: squared norm; false if they are not used up exactly
  bool run(const Bytes& b, int64_t& nrm, int64_t& bits)
  {
    env::ctl.script = b;
    prng::prng_t r;
    size_t used = 0;
    env::ctl.hook = [](void* a, env::kind_t kd, uint64_t, bool p, const uint8_t*, size_t n) { if (p && kd == env::READ) *static_cast<size_t*>(a) += n; };
    env::ctl.arg = &used;
    std::vector<cmplx> z0(N), z1(N);
    ffsampling::ff_sampling<N, 0, LG>(t0.data(), t1.data(), T.data(), N == 512 ? 1.277833697 : 1.298280334, z0.data(), z1.data(), r);
    env::ctl.hook = nullptr;
    if (used != b.size()) return false;
    std::vector<cmplx> a(N), d(N);
    for (size_t i = 0; i < N; i++) {
      const cmplx x = t0[i] - z0[i], y = t1[i] - z1[i];
      a[i] = x * B[i] + y * B[2 * N + i];
      d[i] = x * B[N + i] + y * B[3 * N + i];
    }
    fft::ifft<LG>(a.data()); fft::ifft<LG>(d.data());
    nrm = 0; bits = 0;
    for (size_t i = 0; i < N; i++) {
      const int64_t p = std::lround(a[i].real()), q = std::lround(d[i].real());
      nrm += p * p + q * q;
      bits += 9 + (std::abs(q) >> 7);
      s2[i] = static_cast<int32_t>(q);
    }
    return true;
  }
};

template<size_t N>
void go(const char* dir, const std::vector<keys::Key<N>>& ks, int set, int kind, std::vector<std::pair<size_t, int64_t>>& want, FILE* out, uint64_t seed)
{
  drv::Rng rng(seed);
  for (;;) {
    std::pair<size_t, int64_t> w;
    { std::lock_guard<std::mutex> l(mx); if (want.empty()) return; w = want.back(); want.pop_back(); }
    Search<N> S(ks[w.first], rng.next());
    for (bool found = false; !found;) {
      Script sc{ rng };
      Bytes salt(40), msg(20);
      rng.bytes(salt.data(), 40); rng.bytes(msg.data(), 20);
      S.target(salt, msg);
      Bytes b;
      int64_t nrm = 0, bits = 0;
      const int64_t lim = kind ? S.BITS : S.B2;
      double d = kind ? 2.1 : 1.5;
      for (int t = 0; t < 400; t++) { // near the bound
        b.clear();
        if (kind) sc.candidate(b, N, 0.3, d); else sc.candidate(b, N, d, d);
        if (!S.run(b, nrm, bits)) continue;
        const int64_t v = kind ? bits : nrm;
        if (std::abs(v - lim) < (kind ? 40 : 60000) && (!kind || nrm < S.B2 * 0.99)) break;
        d *= v > lim || (kind && nrm >= S.B2 * 0.99) ? 0.995 : 1.005;
        b.clear();
      }
      if (b.empty()) continue;
      for (int t = 0; t < 60000; t++) { // the last draws anew
        Bytes x = b;
        const size_t keep = 2 * N - 4 - rng.below(kind ? 60 : 5);
        x.resize(11 * keep);
        for (size_t i = keep; i < 2 * N; i++) sc.frame(x, static_cast<int>(rng.range(-3, 4)));
        if (!S.run(x, nrm, bits)) continue;
        const int64_t v = kind ? bits : nrm;
        if (v != lim + w.second) continue;
        if (kind ? nrm >= S.B2 : bits > S.BITS) continue;
        std::lock_guard<std::mutex> l(mx);
        const int32_t head[4] = { kind, set, static_cast<int32_t>(w.first), static_cast<int32_t>(w.second) };
        std::fwrite(head, 4, 4, out);
        std::fwrite(salt.data(), 1, 40, out); std::fwrite(msg.data(), 1, 20, out); std::fwrite(x.data(), 1, x.size(), out);
        std::fflush(out);
        std::printf("%zu kind %d set %d key %zu excess %ld norm %ld bits %ld tries %d\n", N, kind, set, w.first, w.second, nrm, bits, t);
        std::fflush(stdout);
        found = true;
        break;
      }
    }
  }
}

template<size_t N>
void all(const char* dir, std::vector<int64_t> norms, std::vector<int64_t> lens)
{
  FILE* f = std::fopen((std::string(dir) + (N == 512 ? "/edge512.bin" : "/edge1024.bin")).c_str(), "wb");
  const auto ks = keys::load<N>(8), sk = keys::load<N>(N == 512 ? 2 : 1, 0, "skew");
  std::vector<std::pair<size_t, int64_t>> a, b;
  size_t i = 0;
  for (auto v : norms) a.emplace_back(i++ % ks.size(), v);
  for (auto v : lens) b.emplace_back(i++ % sk.size(), v);
  std::vector<std::thread> t;
  for (unsigned q = 0; q < 8; q++) t.emplace_back([&, q] { go<N>(dir, ks, 0, 0, a, f, 100 + q); go<N>(dir, sk, 1, 1, b, f, 200 + q); });
  for (auto& x : t) x.join();
  std::fclose(f);
}
// arguments: directory, degree
int main(int, char** argv)
{
  if (argv[2][0] == '5') all<512>(argv[1], { 1, -1, 2, -2, 3, -3, 5, -4, 17, -20 }, { 1, 0, 1, 0, 2, -1, 8, -7 });
  else all<1024>(argv[1], { 1, -1, 2, -3 }, { 1, 0, 2, -1 });
}
