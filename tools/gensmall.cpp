// Makes corpus/small{512,1024}.bin: key pairs where f has an evaluation (at a
// complex root) that is nearly zero (int16 f, g, F, G).  Not run by any check.
// clang++-18 -std=c++20 -O3 -march=native -I shim -I /repo/include tools/gensmall.cpp -lgmpxx -lgmp -lpthread
#include "falcon.hpp"
#include <cstdio>
#include <memory>
#include <mutex>
#include <random>
#include <thread>
static std::mutex m;
template<size_t N>
void go(unsigned seed, FILE* out, std::vector<double>& want)
{
  constexpr size_t LG = N == 512 ? 9 : 10;
  constexpr double BD = 16822.4121;
  std::mt19937_64 r(seed);
  using P = std::vector<int32_t>;
  std::normal_distribution<double> d(0, std::sqrt(8200. / N));
  auto poly = [&] { P p(N); for (auto& v : p) v = static_cast<int>(std::lround(d(r))); return p; };
  for (;;) {
    double lim;
    { std::lock_guard<std::mutex> l(m); if (want.empty()) return; lim = want.back(); want.pop_back(); }
    for (;;) {
      P f;
      double least;
      do {
        f = poly();
        std::vector<fft::cmplx> x(f.begin(), f.end());
        fft::fft<LG>(x.data());
        least = 1e9;
        for (auto& v : x) least = std::min(least, std::norm(v));
      } while (least > lim);
      bool ok = true;
      std::vector<ff::ff_t> t(N);
      for (size_t i = 0; i < N; i++) t[i] = ff::ff_t{ static_cast<uint16_t>((f[i] + 12289) % 12289) };
      ntt::ntt<LG>(t.data());
      for (auto& v : t) ok &= v.v != 0;
      for (auto v : f) ok &= std::abs(v) <= 15;
      if (!ok) continue;
      bool found = false;
      for (int tries = 0; tries < 300 && !found; tries++) {
        const P g = poly();
        double a = 0, s = 0;
        ok = true;
        for (size_t i = 0; i < N; i++) { a += f[i] * f[i] + g[i] * g[i]; ok &= std::abs(g[i]) <= 15; }
        std::vector<fft::cmplx> x(f.begin(), f.end()), y(g.begin(), g.end());
        fft::fft<LG>(x.data()); fft::fft<LG>(y.data());
        for (size_t i = 0; i < N; i++) s += 1 / (std::norm(x[i]) + std::norm(y[i]));
        s *= 12289. * 12289. / N;
        if (!ok || a > BD - 1 || s > BD - 1) continue;
        auto fm = std::make_unique<std::array<mpz_class, N>>(), gm = std::make_unique<std::array<mpz_class, N>>();
        for (size_t i = 0; i < N; i++) { (*fm)[i] = f[i]; (*gm)[i] = g[i]; }
        const auto sol = ntru_gen::ntru_solve(*fm, *gm);
        if (!sol.second.is_solution()) continue;
        mpz_class mf = 0;
        for (auto& v : sol.first.first) if (abs(v) > mf) mf = abs(v);
        if (mf > 127) continue;
        std::lock_guard<std::mutex> l(m);
        std::printf("%zu |f|^2 %g F %ld\n", N, least, mf.get_si());
        std::fflush(stdout);
        std::vector<int16_t> rec;
        for (const P* p : { static_cast<const P*>(&f), &g }) rec.insert(rec.end(), p->begin(), p->end());
        for (auto* p : { &sol.first.first, &sol.first.second }) for (auto& v : *p) rec.push_back(static_cast<int16_t>(v.get_si()));
        std::fwrite(rec.data(), 2, rec.size(), out);
        std::fflush(out);
        found = true;
      }
      if (found) break;
    }
  }
}
int main(int, char** argv)
{
  FILE *a = std::fopen((std::string(argv[1]) + "/small512.bin").c_str(), "wb"), *b = std::fopen((std::string(argv[1]) + "/small1024.bin").c_str(), "wb");
  std::vector<double> x{ 1e-4, 1e-3, 1e-3, 1e-2 }, y{ 1e-3, 1e-2 };
  std::vector<std::thread> t;
  for (unsigned i = 0; i < 4; i++) t.emplace_back([&, i] { go<512>(i, a, x); });
  for (unsigned i = 0; i < 4; i++) t.emplace_back([&, i] { go<1024>(100 + i, b, y); });
  for (auto& z : t) z.join();
}
