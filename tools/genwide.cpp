// Makes corpus/wide{512,1024}.bin: key pairs whose G has coefficients outside
// [-128, 127] while F has none (int16 f, g, F, G).  Not run by any check.
// clang++-18 -std=c++20 -O3 -march=native -I shim -I /repo/include tools/genwide.cpp -lgmpxx -lgmp -lpthread
#include "falcon.hpp"
#include <cstdio>
#include <mutex>
#include <random>
#include <thread>
static std::mutex m;
static int done512, done1024;
template<size_t N>
void go(unsigned seed, FILE* out, int& done, int want)
{
  constexpr size_t LG = N == 512 ? 9 : 10;
  constexpr double BD = 16822.4121;
  std::mt19937_64 r(seed);
  using P = std::vector<int32_t>;
  auto poly = [&](double nrm) { std::normal_distribution<double> d(0, std::sqrt(nrm / N)); P p(N); for (auto& v : p) v = static_cast<int>(std::lround(d(r))); return p; };
  while (done < want) {
    const P f = poly(3600), g = poly(12600);
    double a = 0, s = 0;
    bool ok = true;
    for (size_t i = 0; i < N; i++) { a += f[i] * f[i] + g[i] * g[i]; ok &= std::abs(f[i]) <= 15 && std::abs(g[i]) <= 15; }
    std::vector<fft::cmplx> x(f.begin(), f.end()), y(g.begin(), g.end());
    fft::fft<LG>(x.data()); fft::fft<LG>(y.data());
    for (size_t i = 0; i < N; i++) s += 1 / (std::norm(x[i]) + std::norm(y[i]));
    s *= 12289. * 12289. / N;
    std::vector<ff::ff_t> t(N);
    for (size_t i = 0; i < N; i++) t[i] = ff::ff_t{ static_cast<uint16_t>((f[i] + 12289) % 12289) };
    ntt::ntt<LG>(t.data());
    for (auto& v : t) ok &= v.v != 0;
    if (!ok || a > BD - 1 || s > BD - 1) continue;
    auto fm = std::make_unique<std::array<mpz_class, N>>(), gm = std::make_unique<std::array<mpz_class, N>>();
    for (size_t i = 0; i < N; i++) { (*fm)[i] = f[i]; (*gm)[i] = g[i]; }
    const auto sol = ntru_gen::ntru_solve(*fm, *gm);
    if (!sol.second.is_solution()) continue;
    mpz_class mx = 0, mn = 0, mf = 0;
    for (size_t i = 0; i < N; i++) { const auto &G = sol.first.second[i]; if (G > mx) mx = G; if (G < mn) mn = G; if (abs(sol.first.first[i]) > mf) mf = abs(sol.first.first[i]); }
    std::lock_guard<std::mutex> l(m);
    std::printf("%zu F %ld G %ld %ld\n", N, mf.get_si(), mn.get_si(), mx.get_si());
    std::fflush(stdout);
    const bool hit = done % 2 ? mx >= 129 : mn <= -130; // both signs
    if (mf > 127 || !hit || done >= want) continue;
    std::vector<int16_t> rec;
    for (auto* p : { &f, &g }) rec.insert(rec.end(), p->begin(), p->end());
    for (auto* p : { &sol.first.first, &sol.first.second }) for (auto& v : *p) rec.push_back(static_cast<int16_t>(v.get_si()));
    std::fwrite(rec.data(), 2, rec.size(), out);
    std::fflush(out);
    done++;
  }
}
int main(int argc, char** argv)
{
  FILE *a = std::fopen((std::string(argv[1]) + "/wide512.bin").c_str(), "wb"), *b = std::fopen((std::string(argv[1]) + "/wide1024.bin").c_str(), "wb");
  std::vector<std::thread> t;
  for (unsigned i = 0; i < 3; i++) t.emplace_back([=] { go<512>(i, a, done512, 4); });
  for (unsigned i = 0; i < 4; i++) t.emplace_back([=] { go<1024>(100 + i, b, done1024, 2); });
  for (auto& x : t) x.join();
  (void)argc;
}
