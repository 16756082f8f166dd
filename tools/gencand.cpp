// Makes further candidates of key generation for corpus/cand{512,1024}.bin:
// records of int16: kind, solution known, f, g, F, G.  Not run by any check.
//   11 |(f,g)|^2 = 16823 (just above the bound)   12 |(f,g)|^2 = 16822
//   13 second Gram-Schmidt norm just above the bound   14 just below
//   9 max |F| = 128, 10 max |F| = 127 (long run)
//   15 f vanishes at exactly one root modulo q    16 g does, f does not
// clang++-18 -std=c++20 -O3 -march=native -I shim -I /repo/include tools/gencand.cpp -lgmpxx -lgmp -lpthread
#include "falcon.hpp"
#include <cstdio>
#include <mutex>
#include <random>
#include <thread>
static std::mutex m;
template<size_t N>
struct Gen
{
  static constexpr size_t LG = N == 512 ? 9 : 10;
  static constexpr int MX = N == 512 ? 31 : 15;
  static constexpr double BD = 16822.4121;
  using P = std::vector<int32_t>;
  std::mt19937_64 r;
  static int zeros(const P& p, size_t* at = nullptr)
  {
    std::vector<ff::ff_t> t(N);
    for (size_t i = 0; i < N; i++) t[i] = ff::ff_t{ static_cast<uint16_t>((p[i] + 12289) % 12289) };
    ntt::ntt<LG>(t.data());
    int z = 0;
    for (size_t i = 0; i < N; i++) if (!t[i].v) { z++; if (at) *at = i; }
    return z;
  }
  static double FG(const P& f, const P& g)
  {
    std::vector<fft::cmplx> a(f.begin(), f.end()), b(g.begin(), g.end());
    fft::fft<LG>(a.data()); fft::fft<LG>(b.data());
    double s = 0;
    for (size_t i = 0; i < N; i++) s += 1 / (std::norm(a[i]) + std::norm(b[i]));
    return s * 12289. * 12289. / N;
  }
  static int64_t fg(const P& f, const P& g) { int64_t s = 0; for (size_t i = 0; i < N; i++) s += f[i] * f[i] + g[i] * g[i]; return s; }
  static bool range(const P& f) { for (int v : f) if (std::abs(v) > (MX < 12 ? MX : 12)) return false; return true; }
  P poly(double k = 1) { std::normal_distribution<double> d(0, k * 1.17 * std::sqrt(12289. / (2 * N))); P p(N); for (auto& v : p) v = static_cast<int>(std::lround(d(r))); return p; }
  void go(int kind, FILE* out, size_t nth)
  {
    for (;;) {
      const bool edge = kind < 11;
      P f = poly(edge ? 1.225 : 1), g = poly(edge ? 0.655 : 1);
      if (kind == 11 || kind == 12) { // move single coefficients
        const int64_t want = kind == 11 ? 16823 : 16822;
        for (int t = 0; t < 100000 && fg(f, g) != want; t++) {
          P& p = r() % 2 ? f : g;
          int& v = p[r() % N];
          const int64_t o = std::abs(fg(f, g) - want);
          const int k = v;
          v += r() % 2 ? 1 : -1;
          if (std::abs(fg(f, g) - want) > o) v = k;
        }
        if (fg(f, g) != want) continue;
      }
      if (kind == 15 || kind == 16) { // make it vanish at a chosen root: two coefficients
        P& p = kind == 15 ? f : g;
        const size_t idx = nth == 0 ? 0 : nth == 1 ? N - 1 : nth == 2 ? N / 2 : nth == 3 ? N / 2 - 1 : r() % N;
        std::vector<ff::ff_t> x(N), v(N);
        x[1] = 1;
        ntt::ntt<LG>(x.data());
        const ff::ff_t root = x[idx];
        ff::ff_t s{}, w{ 1 };
        std::vector<ff::ff_t> pw(N);
        for (size_t i = 0; i < N; i++) { pw[i] = w; s = s + ff::ff_t{ static_cast<uint16_t>((p[i] + 12289) % 12289) } * w; w = w * root; }
        bool ok = false;
        for (int t = 0; t < 2000000 && !ok; t++) {
          const size_t a = r() % N, b = r() % N;
          const int da = static_cast<int>(r() % 5) - 2, db = static_cast<int>(r() % 5) - 2;
          if (a == b) continue;
          auto el = [](int d) { return ff::ff_t{ static_cast<uint16_t>((d + 12289) % 12289) }; };
          if ((s + el(da) * pw[a] + el(db) * pw[b]).v == 0) { p[a] += da; p[b] += db; ok = true; }
        }
        size_t at;
        if (!ok || zeros(p, &at) != 1 || at != idx) continue;
      }
      if (!range(f) || !range(g)) continue;
      if (kind != 15 && zeros(f)) continue;
      const double a = static_cast<double>(fg(f, g)), b = FG(f, g);
      if (kind == 11 ? !(b < BD - 1) : kind == 12 ? !(b < BD - 1) : kind == 13 ? !(a < BD && b > BD + 0.01 && b < BD + 8) : kind == 14 ? !(a < BD && b < BD - 0.01 && b > BD - 8) : !(a < BD && b < BD - 1)) continue;
      auto fm = std::make_unique<std::array<mpz_class, N>>(), gm = std::make_unique<std::array<mpz_class, N>>();
      for (size_t i = 0; i < N; i++) { (*fm)[i] = f[i]; (*gm)[i] = g[i]; }
      const auto s = ntru_gen::ntru_solve(*fm, *gm);
      if (!s.second.is_solution()) continue;
      bool in = true;
      mpz_class top = 0;
      for (size_t i = 0; i < N; i++) if (abs(s.first.first[i]) > top) top = abs(s.first.first[i]);
      in = edge ? top == (kind == 9 ? 128 : 127) : top <= 120;
      if (!in) continue;
      std::vector<int16_t> rec{ static_cast<int16_t>(kind), 1 };
      for (auto* p : { &f, &g }) rec.insert(rec.end(), p->begin(), p->end());
      for (auto* p : { &s.first.first, &s.first.second }) for (auto& v : *p) rec.push_back(static_cast<int16_t>(v.get_si()));
      std::lock_guard<std::mutex> l(m);
      std::fwrite(rec.data(), 2, rec.size(), out);
      std::fflush(out);
      std::printf("%zu kind %d fg %.0f FG %.3f\n", N, kind, a, b);
      return;
    }
  }
};
int main(int argc, char** argv)
{
  const bool big = argc > 2 && argv[2][0] == '1';
  FILE* o = std::fopen(argv[1], "ab");
  std::vector<std::thread> t;
  if (argc > 3) { // kinds 9 and 10 only
    for (int i = 0; i < 6; i++) t.emplace_back([=] { Gen<1024>{ std::mt19937_64(9000 + i) }.go(9 + i % 2, o, 0); });
    for (auto& x : t) x.join();
    return 0;
  }
  for (int kind = 11; kind <= 16; kind++) t.emplace_back([=] {
    const size_t cnt = (kind == 15 ? 8 : 3);
    for (size_t i = 0; i < cnt; i++) { if (big) Gen<1024>{ std::mt19937_64(kind * 1000 + i) }.go(kind, o, i); else Gen<512>{ std::mt19937_64(kind * 100 + i) }.go(kind, o, i); }
  });
  for (auto& x : t) x.join();
}
