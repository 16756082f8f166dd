// NTRU equation solver and its building blocks (C13).
#include "drv.hpp"
#include "karatsuba.hpp"
#include "ntru_gen.hpp"
using drv::J;
template<size_t N> using P = std::array<mpz_class, N>;

static mpz_class rnd(drv::Rng& r, unsigned bits, bool sign = true)
{
  mpz_class v = 0;
  for (unsigned i = 0; i < bits; i += 32) v = (v << 32) + mpz_class(static_cast<unsigned long>(r.next() & 0xffffffff));
  if (bits % 32) v >>= 32 - bits % 32;
  return sign && r.coin() ? -v : v;
}
template<size_t N>
static void kvp(J& j, const char* k, const P<N>& p)
{
  j.key(k).raw("[");
  for (size_t i = 0; i < N; i++) { if (i) j.raw(","); j.big(p[i]); }
  j.raw("]");
}

template<size_t N>
struct Run
{
  drv::Rng& rng;
  P<N> poly(int kind, unsigned bits)
  {
    P<N> p;
    for (size_t i = 0; i < N; i++) switch (kind) {
      case 0: p[i] = rnd(rng, bits); break;
      case 1: p[i] = rng.coin() ? mpz_class(0) : rnd(rng, bits); break;                    // many zeros
      case 2: p[i] = (mpz_class(1) << bits) - 1; break;                                     // all ones
      case 3: p[i] = mpz_class(1) << bits; if (i % 2) p[i] = -p[i]; break;
      case 4: p[i] = -rnd(rng, bits, false); break;                                          // all negative
      case 5: p[i] = i + 1 == N ? rnd(rng, bits) : mpz_class(0); break;                      // top coefficient only
      default: p[i] = mpz_class(static_cast<long>(rng.range(-3, 3))); break;
    }
    return p;
  }
  void blocks([[maybe_unused]] long n, [[maybe_unused]] unsigned maxbits)
  {
#ifndef NO_INTERNALS
    for (long t = 0; t < n; t++) {
      const unsigned bits = 1 + static_cast<unsigned>(rng.below(maxbits));
      const auto a = poly(static_cast<int>(t % 7), bits), b = poly(static_cast<int>(rng.below(7)), 1 + static_cast<unsigned>(rng.below(maxbits)));
      {
        J j; j.kv("op", "kara"); kvp(j, "a", a); kvp(j, "b", b);
        drv::begin("kara"); drv::call(j);
        const auto r = karatsuba::karamul(a, b);
        J o; kvp(o, "r", r); drv::ret(o); drv::end();
      }
      if constexpr (N > 1) {
        J j; j.kv("op", "maps"); kvp(j, "a", a);
        drv::begin("maps"); drv::call(j);
        J o; kvp(o, "norm", ntru_gen::field_norm(a)); kvp(o, "conj", ntru_gen::galois_conjugate(a));
        if constexpr (N < 1024) kvp(o, "lift", ntru_gen::lift(a)); else o.kva("lift", static_cast<const int*>(nullptr), 0);
        drv::ret(o); drv::end();
      }
    }
#endif
  }
  // inputs as the solver makes them: a solution plus a multiple of (f, g)
  void reduce([[maybe_unused]] long n)
  {
#ifndef NO_INTERNALS
    if constexpr (N > 1) for (long t = 0; t < n; t++) {
      const unsigned b0 = t % 4 == 3 ? 20 + static_cast<unsigned>(rng.below(12)) : 2 + static_cast<unsigned>(rng.below(12));
      P<N> f, g, F, G;
      drv::begin("setup"); drv::call(J().kv("op", "setup"));
      for (int tries = 0;; tries++) {
        f = poly(t % 5 == 4 ? 1 : 0, b0), g = poly(t % 5 == 3 ? 4 : 0, b0);
        const auto s = ntru_gen::ntru_solve(f, g);
        if (!s.second.is_solution()) continue;
        F = s.first.first; G = s.first.second;
        break;
      }
      drv::ret(J()); drv::end();
      const auto m = poly(static_cast<int>(rng.below(7)), 1 + static_cast<unsigned>(rng.below(t % 2 ? 30 : 400)));
      const auto mf = karatsuba::karamul(m, f), mg = karatsuba::karamul(m, g);
      for (size_t i = 0; i < N; i++) { F[i] += mf[i]; G[i] += mg[i]; }
      J j; j.kv("op", "reduce"); kvp(j, "f", f); kvp(j, "g", g); kvp(j, "F", F); kvp(j, "G", G);
      drv::begin("reduce"); drv::call(j);
      ntru_gen::reduce(f, g, F, G);
      J o; kvp(o, "F2", F); kvp(o, "G2", G); drv::ret(o); drv::end();
    }
#endif
  }
  void solve1(const char* name, const P<N>& f, const P<N>& g)
  {
    J j; j.kv("op", "solve"); kvp(j, "f", f); kvp(j, "g", g);
    drv::begin(name); drv::call(j, N >= 256 ? 120 : 20);
    const auto r = ntru_gen::ntru_solve(f, g);
    const bool ok = r.second.is_solution();
    J o; o.kvb("ok", ok);
    if (ok) { kvp(o, "F", r.first.first); kvp(o, "G", r.first.second); }
    drv::ret(o); drv::end();
  }
  void solve(long n)
  {
    if constexpr (N > 1) for (long t = 0; t < n; t++) {
      const int m[] = { 1, 2, 3, 7, 31, 127, 1000, 100000 };
      const int mf = m[t % 8], mg = t % 3 ? mf : m[rng.below(6)];
      P<N> f, g;
      for (size_t i = 0; i < N; i++) { f[i] = mpz_class(static_cast<long>(rng.range(-mf, mf))); g[i] = mpz_class(static_cast<long>(rng.range(-mg, mg))); }
      if (t % 2) { // resultants odd half of the time
        mpz_class s = 0; for (auto& x : f) s += x; if (s % 2 == 0) f[rng.below(N)] += 1;
      }
      if (t % 11 == 5) g = f;
      if (t % 11 == 7) for (auto& x : f) x *= 3;
      if (t % 13 == 3) { for (auto& x : g) x = 0; g[rng.below(N)] = rng.coin() ? 1 : -1; }
      if (t % 13 == 4) { for (auto& x : f) x = 0; f[rng.below(N)] = rng.coin() ? 1 : -1; }
      if (t % 29 == 8) for (auto& x : f) x = 0;
      if (t % 9 == 2) for (auto& x : f) { x = rnd(rng, 90); }
      solve1("solve", f, g);
    }
  }
  // multiples of a large unit: f f* + g g* is tiny at some of the roots and
  // large at others
  void stretched(long n)
  {
    if constexpr (N >= 4) for (long t = 0; t < n; t++) {
      P<N> f = poly(6, 2), g = poly(6, 2);
      const long by = static_cast<long>(t % 6 == 5 ? rng.below(120) : 4 + rng.below(26));
      const size_t odd = 2 * rng.below(N) + 1;
      for (auto p : { &f, &g }) {
        for (long i = 0; i < by; i++) { // times 1 + y - y^3, y = x^(N/4 odd)
          P<N> r = *p;
          for (size_t j = 0; j < N; j++) for (size_t e : { 1, 3 }) {
            const size_t to = (j + e * odd * (N / 4)) % (2 * N);
            const mpz_class c = e == 1 ? (*p)[j] : mpz_class(-(*p)[j]);
            if (to < N) r[to] += c; else r[to - N] -= c;
          }
          *p = r;
        }
      }
      if (t % 4 == 1) g[rng.below(N)] += 1;
      solve1("solve", f, g);
    }
  }
};

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  const long k = drv::opti(argc, argv, "--k", 1);
  const long big = drv::opti(argc, argv, "--big", 0);
  if (!big) {
#ifndef NO_INTERNALS
    // extended gcd
    for (long t = 0; t < 150 * k; t++) {
      const unsigned b = t % 4 == 0 ? 4 : t % 4 == 1 ? 40 : 3000;
      mpz_class x = rnd(rng, 1 + static_cast<unsigned>(rng.below(b))), y = rnd(rng, 1 + static_cast<unsigned>(rng.below(b)));
      if (t % 7 == 0) { const mpz_class m = rnd(rng, 60, false) + 2; x *= m; y *= m; }
      if (t == 3) x = 0;
      if (t == 4) y = 0;
      if (t == 5) { x = 1; y = 1; }
      J j; j.kv("op", "xgcd").key("x").big(x).key("y").big(y);
      drv::begin("xgcd"); drv::call(j);
      const auto r = ntru_gen::xgcd(x, y);
      J o; o.key("a").big(r[0]).key("b").big(r[1]).key("g").big(r[2]); drv::ret(o); drv::end();
    }
#endif
    Run<1>{ rng }.blocks(20 * k, 3000);
    Run<2>{ rng }.blocks(40 * k, 3000);
    Run<4>{ rng }.blocks(40 * k, 1500);
    Run<8>{ rng }.blocks(30 * k, 800);
    Run<16>{ rng }.blocks(20 * k, 400);
    Run<32>{ rng }.blocks(20 * k, 200);
    Run<64>{ rng }.blocks(10 * k, 200);
    Run<128>{ rng }.blocks(7 * k, 100);
    Run<256>{ rng }.blocks(7 * k, 60);
    Run<512>{ rng }.blocks(7 * k, 40);
    Run<1024>{ rng }.blocks(4 * k, 30);
    Run<2>{ rng }.reduce(60 * k);
    Run<4>{ rng }.reduce(60 * k);
    Run<8>{ rng }.reduce(40 * k);
    Run<16>{ rng }.reduce(30 * k);
    Run<32>{ rng }.reduce(20 * k);
    Run<64>{ rng }.reduce(10 * k);
    // every pair of degree 2 with small coefficients
    {
      const long m = k > 1 ? 3 : 2;
      for (long a = -m; a <= m; a++) for (long b = -m; b <= m; b++) for (long c = -m; c <= m; c++) for (long d = -m; d <= m; d++)
        Run<2>{ rng }.solve1("tiny", { mpz_class(a), mpz_class(b) }, { mpz_class(c), mpz_class(d) });
    }
    Run<4>{ rng }.stretched(60 * k);
    Run<8>{ rng }.stretched(60 * k);
    Run<16>{ rng }.stretched(20 * k);
    Run<64>{ rng }.stretched(6 * k);
    Run<2>{ rng }.solve(300 * k);
    Run<4>{ rng }.solve(400 * k);
    Run<8>{ rng }.solve(200 * k);
    Run<16>{ rng }.solve(100 * k);
    Run<32>{ rng }.solve(40 * k);
    Run<64>{ rng }.solve(20 * k);
  } else {
    Run<128>{ rng }.solve(12 * big);
    Run<256>{ rng }.solve(8 * big);
    Run<512>{ rng }.solve(4 * big);
    Run<1024>{ rng }.solve(big > 1 ? 4 : 0);
  }
  return drv::close();
}
