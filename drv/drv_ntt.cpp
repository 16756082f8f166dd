// Number-theoretic transform and Z_q polynomial arithmetic (C09).
#include "drv.hpp"
#include "ntt.hpp"
#include "polynomial.hpp"
using ff::ff_t;
static constexpr int Q = 12289;

template<size_t LG>
struct Run
{
  static constexpr size_t N = size_t(1) << LG;
  using P = std::vector<ff_t>;
  using V = std::vector<int>;
  static V vals(const ff_t* p) { V r(N); for (size_t i = 0; i < N; i++) r[i] = p[i].v; return r; }
  // transforms act on guarded copies, so that out-of-bounds accesses show
  static V fwd(const V& f)
  {
    drv::Guard<ff_t> b(N);
    for (size_t i = 0; i < N; i++) b[i].v = static_cast<uint16_t>(f[i]);
    ntt::ntt<LG>(b.p);
    if (!b.intact()) raise(SIGABRT);
    return vals(b.p);
  }
  static V inv(const V& f)
  {
    drv::Guard<ff_t> b(N);
    for (size_t i = 0; i < N; i++) b[i].v = static_cast<uint16_t>(f[i]);
    ntt::intt<LG>(b.p);
    if (!b.intact()) raise(SIGABRT);
    return vals(b.p);
  }
  static V bin(int op, const V& f, const V& g)
  {
    drv::Guard<ff_t> a(N), b(N), c(N);
    for (size_t i = 0; i < N; i++) { a[i].v = static_cast<uint16_t>(f[i]); b[i].v = static_cast<uint16_t>(g[i]); c[i].v = 7; }
    ff_t* r = c.p;
    switch (op) {
      case 0: polynomial::mul<LG>(a.p, b.p, c.p); break;
      case 1: polynomial::div<LG>(a.p, b.p, c.p); break;
      case 2: polynomial::add_to<LG>(a.p, b.p); r = a.p; break;
      default: polynomial::neg<LG>(a.p); r = a.p; break;
    }
    if (!a.intact() || !b.intact() || !c.intact()) raise(SIGABRT);
    return vals(r);
  }
  static void kv(drv::J& j, const char* k, const V& v) { j.kva(k, v.data(), v.size()); }

  static void go(drv::Rng& rng, long n, long step)
  {
    V x(N, 0);
    x[1] = 1;
    drv::J hd; hd.kv("n", N); kv(hd, "roots", fwd(x));
    drv::head(hd);
    { drv::J j; j.kv("op", "roots"); drv::single("roots", j); }
    // monomials: the transform is determined by them
    for (size_t k = 0; k < N; k += static_cast<size_t>(step)) {
      V f(N, 0);
      const int c = k % 3 == 0 ? 1 : k % 3 == 1 ? Q - 1 : static_cast<int>(rng.range(2, Q - 2));
      f[k] = c;
      drv::J j; j.kv("op", "mono").kv("k", k).kv("c", c); drv::begin("mono"); drv::call(j);
      const V F = fwd(f), b = inv(F), e = inv(f);
      drv::J r; kv(r, "F", F); kv(r, "back", b); kv(r, "inv", e); drv::ret(r); drv::end();
    }
    auto gen = [&](int kind) {
      V f(N);
      for (auto& v : f) {
        switch (kind) {
          case 0: v = static_cast<int>(rng.below(Q)); break;
          case 1: v = Q - 1; break;
          case 2: v = 0; break;
          case 3: v = rng.coin() ? 0 : Q - 1; break;
          case 4: v = rng.coin(50) ? static_cast<int>(rng.below(Q)) : 0; break;
          case 5: v = static_cast<int>((rng.range(-6, 6) + Q) % Q); break;
          case 6: v = static_cast<int>(rng.range(6100, 6190)); break;
          case 7: v = static_cast<int>(rng.below(4)) * 4096; break;
          default: v = static_cast<int>(rng.below(Q)); break;
        }
      }
      // structured: constant, one half zero, periodic, symmetric, two terms, even or odd part only
      const size_t p = size_t(1) << rng.below(LG);
      static constexpr int cs[] = { 1, 2, 256, 4096, 6144, 6145, 8192, Q - 1 };
      switch (kind) {
        case 8: f.assign(N, cs[rng.below(8)]); break;
        case 9: std::fill_n(f.begin(), N / 2, 0); break;
        case 10: std::fill_n(f.begin() + N / 2, N / 2, 0); break;
        case 11: for (size_t i = p; i < N; i++) f[i] = rng.coin() && i >= N / 2 ? f[i] : f[i - p]; break;
        case 12: for (size_t i = 1; i < N; i++) f[N - i] = p & 2 ? f[i] : (Q - f[i]) % Q; break;
        case 13: f.assign(N, 0); f[rng.below(N)] = 1; f[rng.below(N)] = Q - 1; break;
        case 14: for (size_t i = p & 1 ? 0 : 1; i < N; i += 2) f[i] = 0; break;
        case 15: for (size_t i = 0; i < N; i++) if (i / p % 2 == (p & 1)) f[i] = 0; break;
        default: break;
      }
      if (kind == 2) f[0] = static_cast<int>(rng.below(Q)), f[N - 1] = 1;
      return f;
    };
    for (long t = 0; t < n; t++) {
      const V f = gen(static_cast<int>(t % 16)), g = gen(static_cast<int>(t < 256 ? (t * 7 + t / 16) % 16 : rng.below(16)));
      drv::J j; j.kv("op", "pair"); kv(j, "f", f); kv(j, "g", g);
      drv::begin("pair"); drv::call(j);
      const V F = fwd(f), G = fwd(g);
      V G0 = G; // some zero components, for division
      if (t % 4 == 3) for (int z = 0; z < 5; z++) G0[rng.below(N)] = 0;
      const V m = bin(0, F, G), d = bin(1, F, G0), s = bin(2, F, G), ng = bin(3, F, G);
      drv::J r;
      kv(r, "F", F); kv(r, "G", G); kv(r, "G0", G0); kv(r, "back", inv(F)); kv(r, "mulF", m); kv(r, "divF", d); kv(r, "addF", s); kv(r, "negF", ng);
      kv(r, "mul", inv(m)); kv(r, "div", inv(d)); kv(r, "add", inv(s)); kv(r, "neg", inv(ng));
      kv(r, "again", fwd(inv(f))); // every vector is the transform of one polynomial
      drv::ret(r); drv::end();
    }
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  const long n = drv::opti(argc, argv, "--n", 24), step = drv::opti(argc, argv, "--step", 1);
  if (drv::opti(argc, argv, "--lg", 9) == 9) Run<9>::go(rng, n, step); else Run<10>::go(rng, n, step);
  return drv::close();
}
