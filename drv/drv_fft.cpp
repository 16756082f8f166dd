// FFT-domain polynomial arithmetic, every degree (C10).
#include "drv.hpp"
#include "common.hpp"
#include "fft.hpp"
#include "ntru_gen.hpp"
#include "polynomial.hpp"
using fft::cmplx;
using CV = std::vector<cmplx>;

template<size_t LG>
struct Run
{
  static constexpr size_t N = size_t(1) << LG, H = N / 2;
  static void ok(bool b) { if (!b) raise(SIGABRT); }
  static CV fwd(const CV& f)
  {
    drv::Guard<cmplx> b(N);
    std::copy(f.begin(), f.end(), b.p);
    fft::fft<LG>(b.p);
    ok(b.intact());
    return CV(b.p, b.p + N);
  }
  static CV inv(const CV& f)
  {
    drv::Guard<cmplx> b(N);
    std::copy(f.begin(), f.end(), b.p);
    fft::ifft<LG>(b.p);
    ok(b.intact());
    return CV(b.p, b.p + N);
  }
  enum { ADD, ADDTO, SUB, MUL, DIV };
  static CV bin(int op, const CV& f, const CV& g)
  {
    drv::Guard<cmplx> a(N), b(N), c(N);
    std::copy(f.begin(), f.end(), a.p);
    std::copy(g.begin(), g.end(), b.p);
    c.fill(0x41);
    cmplx* r = c.p;
    switch (op) {
      case ADD: polynomial::add<LG>(a.p, b.p, c.p); break;
      case ADDTO: polynomial::add_to<LG>(a.p, b.p); r = a.p; break;
      case SUB: polynomial::sub<LG>(a.p, b.p, c.p); break;
      case MUL: polynomial::mul<LG>(a.p, b.p, c.p); break;
      default: polynomial::div<LG>(a.p, b.p, c.p); break;
    }
    ok(a.intact() && b.intact() && c.intact());
    return CV(r, r + N);
  }
  static void kv(drv::J& j, const char* k, const CV& v) { j.kvc(k, v.data(), v.size()); }
  static std::vector<int> order(const CV& r)
  {
    std::vector<int> o;
    const double n = static_cast<double>(r.size());
    for (auto z : r) {
      double t = std::arg(z) / M_PI * n; // 2k+1
      if (t < 0) t += 2 * n;
      o.push_back(static_cast<int>(std::lround((t - 1) / 2)));
    }
    return o;
  }
  static CV X() { CV x(N); x[1] = 1; return x; }
  static CV real(const std::vector<double>& v) { return CV(v.begin(), v.end()); }

  static void go(drv::Rng& rng, long nf, long np, long nb)
  {
    CV x(N);
    if (N > 1) x[1] = 1;
    const CV roots = fwd(x);
    const auto lay = order(roots);
    std::vector<int> lay2{ 0 };
    if constexpr (LG > 1) lay2 = order(Run<LG - 1>::fwd(Run<LG - 1>::X()));
    drv::J hd; hd.kv("n", N).kva("lay", lay.data(), lay.size()).kva("lay2", lay2.data(), lay2.size());
    drv::head(hd);
    { drv::J j; j.kv("op", "roots"); kv(j, "roots", roots); drv::single("roots", j); }
    for (long t = 0; t < nf; t++) {
      CV f(N);
      for (size_t i = 0; i < N; i++) {
        switch (t % 8) {
          case 0: f[i] = static_cast<double>(rng.below(12289)); break;
          case 1: f[i] = static_cast<double>(rng.range(-127, 127)); break;
          case 2: f[i] = 12288; break;
          case 3: f[i] = (rng.unit() - 0.5) * 4000; break;
          case 4: f[i] = i == rng.below(N) || i + 1 == N ? 1e6 : 0; break;
          case 5: f[i] = i % 2 ? 12288. : -12288.; break;
          case 6: f[i] = rng.coin(8) ? static_cast<double>(rng.range(-100000, 100000)) : 0.; break;
          default: f[i] = (rng.unit() - 0.5) * std::ldexp(1, static_cast<int>(rng.range(-6, 24))); break;
        }
      }
      drv::J j; j.kv("op", "fft"); kv(j, "f", f); drv::begin("fft"); drv::call(j);
      const CV F = fwd(f), back = inv(F);
      drv::J r; kv(r, "F", F); kv(r, "back", back);
      {
        drv::Guard<cmplx> a(N), s0(H), s1(H), m(N);
        std::copy(F.begin(), F.end(), a.p);
        s0.fill(0x41); s1.fill(0x41); m.fill(0x41);
        fft::split_fft<LG>(a.p, s0.p, s1.p);
        ok(a.intact() && s0.intact() && s1.intact());
        kv(r, "s0", CV(s0.p, s0.p + H)); kv(r, "s1", CV(s1.p, s1.p + H));
        fft::merge_fft<LG>(s0.p, s1.p, m.p);
        ok(m.intact() && s0.intact() && s1.intact());
        kv(r, "m", CV(m.p, m.p + N));
        fft::adj_poly<LG>(a.p);
        ok(a.intact());
        kv(r, "adj", CV(a.p, a.p + N));
        kv(r, "adjc", inv(CV(a.p, a.p + N)));
      }
      std::vector<double> re(N);
      for (size_t i = 0; i < N; i++) re[i] = f[i].real();
      r.key("normc").fx(ntru_gen::sqrd_norm<LG>(static_cast<const double*>(re.data())));
      r.key("normf").fx(ntru_gen::sqrd_norm<LG>(static_cast<const cmplx*>(F.data())));
      drv::ret(r); drv::end();
    }
    for (long t = 0; t < np; t++) {
      CV a(N), b(N);
      auto g = [&](int k) -> double {
        switch (k) {
          case 0: return static_cast<double>(rng.range(-20000, 20000));
          case 1: return (rng.unit() - 0.5) * 1000;
          case 2: return (rng.unit() - 0.5) * std::ldexp(1, static_cast<int>(rng.range(-8, 20)));
          default: return rng.coin() ? 0. : static_cast<double>(rng.range(-3, 3));
        }
      };
      for (size_t i = 0; i < N; i++) {
        const int k = static_cast<int>(t % 4);
        a[i] = { g(k), g(k) };
        do b[i] = { g(k), k == 1 ? 0. : g(k) }; while (std::abs(b[i]) < 0.01);
      }
      drv::J j; j.kv("op", "bin"); kv(j, "a", a); kv(j, "b", b); drv::begin("bin"); drv::call(j);
      drv::J r; kv(r, "add", bin(ADD, a, b)); kv(r, "addto", bin(ADDTO, a, b)); kv(r, "sub", bin(SUB, a, b)); kv(r, "mul", bin(MUL, a, b)); kv(r, "div", bin(DIV, a, b));
      drv::ret(r); drv::end();
    }
    // integer results survive rounding
    for (long t = 0; t < nb; t++) {
      std::vector<int> f(N), g(N), p(N), d(N), s(N);
      for (size_t i = 0; i < N; i++) {
        switch (t % 4) {
          case 0: f[i] = static_cast<int>(rng.below(12289)); g[i] = static_cast<int>(rng.range(-127, 127)); break;
          case 1: f[i] = 12288; g[i] = i % 2 ? 127 : -127; break;
          case 2: f[i] = static_cast<int>(rng.range(-31, 31)); g[i] = static_cast<int>(rng.range(-127, 127)); break;
          default: f[i] = static_cast<int>(rng.range(-1000, 1000)); g[i] = static_cast<int>(rng.range(-1000, 1000)); break;
        }
      }
      // a divisor bounded away from zero at every root
      std::vector<int> w(N);
      for (size_t i = 0; i < N; i++) w[i] = static_cast<int>(rng.range(-1, 1));
      w[rng.below(N)] += static_cast<int>(rng.coin() ? 3 * N : -3 * static_cast<int>(N));
      drv::J j; j.kv("op", "int").kva("f", f.data(), N).kva("g", g.data(), N).kva("w", w.data(), N); drv::begin("int"); drv::call(j);
      auto up = [&](const std::vector<int>& v) { return CV(v.begin(), v.end()); };
      const CV F = fwd(up(f)), G = fwd(up(g)), W = fwd(up(w));
      auto rd = [&](const CV& v, std::vector<int>& o) { for (size_t i = 0; i < N; i++) { ok(std::fabs(v[i].real()) < 2.1e9); o[i] = static_cast<int>(std::llround(v[i].real())); } };
      rd(inv(bin(MUL, F, G)), p);
      rd(inv(bin(SUB, bin(ADD, F, G), bin(ADD, G, G))), s); // f - g
      rd(inv(bin(DIV, bin(MUL, G, W), W)), d);              // g
      drv::J r; r.kva("mul", p.data(), N).kva("sub", s.data(), N).kva("div", d.data(), N);
      drv::ret(r); drv::end();
    }
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  const long k = drv::opti(argc, argv, "--k", 1);
  Run<1>::go(rng, 24 * k, 12 * k, 24 * k);
  Run<2>::go(rng, 24 * k, 12 * k, 24 * k);
  Run<3>::go(rng, 24 * k, 8 * k, 24 * k);
  Run<4>::go(rng, 24 * k, 8 * k, 24 * k);
  Run<5>::go(rng, 16 * k, 8 * k, 16 * k);
  Run<6>::go(rng, 16 * k, 4 * k, 16 * k);
  Run<7>::go(rng, 16 * k, 4 * k, 12 * k);
  Run<8>::go(rng, 8 * k, 4 * k, 8 * k);
  Run<9>::go(rng, 8 * k, 4 * k, 8 * k);
  Run<10>::go(rng, 8 * k, 4 * k, 8 * k);
  return drv::close();
}
