// Gram matrix, LDL tree and nearest-plane sampling at every degree (C12),
// below the level of whole signatures.
#include "drv.hpp"
#include "prng_tap.hpp"
#include "falcon_tree.hpp"
#include "ffsampling.hpp"
#include "fft.hpp"
#include "keygen.hpp"
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
using fft::cmplx;
using CV = std::vector<cmplx>;
namespace env = shake256::env;

struct Seen { Bytes b; static void hook(void* a, env::kind_t k, uint64_t, bool prng, const uint8_t* p, size_t n) { auto& s = *static_cast<Seen*>(a); if (prng && k == env::READ) s.b.insert(s.b.end(), p, p + n); } };

template<size_t LG>
static std::vector<int> order()
{
  constexpr size_t n = size_t(1) << LG;
  CV x(n);
  x[1] = 1;
  fft::fft<LG>(x.data());
  std::vector<int> o;
  for (auto z : x) {
    double t = std::arg(z) / M_PI * static_cast<double>(n);
    if (t < 0) t += 2 * static_cast<double>(n);
    o.push_back(static_cast<int>(std::lround((t - 1) / 2)));
  }
  return o;
}
template<size_t LG>
static void lays(std::vector<std::vector<int>>& l)
{
  if constexpr (LG > 1) lays<LG - 1>(l);
  l.push_back(order<LG>());
}

template<size_t LG>
struct Run
{
  static constexpr size_t N = size_t(1) << LG, TS = N * (LG + 1);
  drv::Rng& rng;
  static bool same(const cmplx* a, const CV& b) { return !std::memcmp(a, b.data(), b.size() * sizeof(cmplx)); }

  void go(long n)
  {
    std::vector<std::vector<int>> l;
    lays<LG>(l);
    J hd; hd.kv("n", N).key("lays").raw("[");
    for (size_t i = 0; i < l.size(); i++) { if (i) hd.raw(","); hd.arr(l[i].data(), l[i].size()); }
    hd.raw("]");
    drv::head(hd);
    for (long t = 0; t < n; t++) {
#ifndef NO_INTERNALS
      drv::begin("tree");
      // a 2x2 basis of random polynomials
      Guard<cmplx> B(4 * N), G(4 * N), T(TS);
      const double m = t % 3 == 0 ? 4 : t % 3 == 1 ? 40 : 1;
      for (size_t i = 0; i < 4 * N; i++) B[i] = static_cast<double>(rng.range(-100, 100)) * m / 100;
      for (int i = 0; i < 4; i++) fft::fft<LG>(B.p + static_cast<size_t>(i) * N);
      const CV B0(B.p, B.p + 4 * N);
      for (size_t i = 0; i < 4 * N; i++) G[i] = { rng.unit(), rng.unit() };
      for (size_t i = 0; i < TS; i++) T[i] = { rng.unit(), rng.unit() };
      drv::call(J().kv("op", "gram").kvc("B", B.p, 4 * N));
      keygen::compute_gram_matrix<N>(B.p, G.p);
      drv::ret(J().kvc("G", G.p, 4 * N).kvb("mem", B.intact() && G.intact() && same(B.p, B0)));
      const CV G0(G.p, G.p + 4 * N);
      const double sigma = 165.7 / (1 + static_cast<double>(rng.below(8)));
      drv::call(J().kv("op", "ldl").kvc("G", G.p, 4 * N).key("sigma").fx(sigma));
      falcon_tree::ffldl<N, 0, LG>(G.p, T.p);
      falcon_tree::normalize_tree<N, 0, LG>(T.p, sigma);
      drv::ret(J().kvc("T", T.p, TS).kvb("mem", G.intact() && T.intact() && same(G.p, G0)));
      drv::end();
#else
      Guard<cmplx> T(TS);
#endif
      // any tree with leaves in range, any target
      const double smin = rng.coin() ? 1.277833697 : 1.298280334;
      Guard<cmplx> t0(N), t1(N), z0(N), z1(N);
      for (size_t i = 0; i < TS; i++) T[i] = { (rng.unit() - 0.5) * (t % 2 ? 2 : 0.1), (rng.unit() - 0.5) * (t % 2 ? 2 : 0.1) };
      for (size_t i = TS - N; i < TS; i++) T[i] = t % 5 == 0 ? smin : t % 5 == 1 ? 1.8205 : smin + rng.unit() * (1.8205 - smin);
      for (size_t i = 0; i < N; i++) {
        const double s = t % 4 == 0 ? 1 : t % 4 == 1 ? 12289 : t % 4 == 2 ? 200000 : 20;
        t0[i] = (rng.unit() - 0.5) * s; t1[i] = (rng.unit() - 0.5) * s;
        if (t % 7 == 3) { t0[i] = std::floor(t0[i].real()) + 0.25; t1[i] = std::floor(t1[i].real()) - 0.25; }
      }
      fft::fft<LG>(t0.p); fft::fft<LG>(t1.p);
      // the inner nodes are values of real polynomials
      for (size_t j = 0; j < LG; j++) node(T.p + j * N, N >> j, size_t(1) << j);
      const CV T0(T.p, T.p + TS), a0(t0.p, t0.p + N), a1(t1.p, t1.p + N);
      for (size_t i = 0; i < N; i++) z0[i] = z1[i] = { rng.unit(), rng.unit() };
      drv::begin("sample");
      drv::call(J().kv("op", "ffs").key("smin").fx(smin).kvc("T", T.p, TS).kvc("t0", t0.p, N).kvc("t1", t1.p, N));
      Seen s;
      env::ctl.hook = Seen::hook; env::ctl.arg = &s;
      {
        prng::prng_t r;
        ffsampling::ff_sampling<N, 0, LG>(t0.p, t1.p, T.p, smin, z0.p, z1.p, r);
      }
      env::ctl.hook = nullptr;
      drv::ret(J().kva("b", s.b.data(), s.b.size()).kvc("z0", z0.p, N).kvc("z1", z1.p, N).kvb("mem", T.intact() && t0.intact() && t1.intact() && z0.intact() && z1.intact() && same(T.p, T0) && same(t0.p, a0) && same(t1.p, a1)));
      drv::end();
    }
  }
  // make each node the transform of a random real polynomial
  template<size_t L>
  static void real(cmplx* p) { for (size_t i = 0; i < (size_t(1) << L); i++) p[i] = p[i].real(); fft::fft<L>(p); }
  static void node(cmplx* p, size_t n, size_t cnt)
  {
    for (size_t c = 0; c < cnt; c++, p += n) switch (n) {
      case 2: real<1>(p); break; case 4: real<2>(p); break; case 8: real<3>(p); break; case 16: real<4>(p); break;
      case 32: real<5>(p); break; case 64: real<6>(p); break; case 128: real<7>(p); break; case 256: real<8>(p); break;
      case 512: real<9>(p); break; case 1024: real<10>(p); break; default: break;
    }
    // keep them of moderate size
    p -= n * cnt;
    const double s = 1 / std::sqrt(static_cast<double>(n));
    for (size_t i = 0; i < n * cnt; i++) p[i] *= s;
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  const uint64_t seed = static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1));
  drv::Rng rng(seed);
  env::ctl.det = true; env::ctl.det_seed = seed;
  const long k = drv::opti(argc, argv, "--k", 1);
  Run<1>{ rng }.go(40 * k);
  Run<2>{ rng }.go(30 * k);
  Run<3>{ rng }.go(20 * k);
  Run<4>{ rng }.go(16 * k);
  Run<5>{ rng }.go(10 * k);
  Run<6>{ rng }.go(8 * k);
  Run<7>{ rng }.go(6 * k);
  Run<8>{ rng }.go(4 * k);
  Run<9>{ rng }.go(2 * k);
  Run<10>{ rng }.go(1 * k);
  return drv::close();
}
