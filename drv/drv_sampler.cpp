// Integer sampler (C11), both variants, scripted byte streams.
#include "drv.hpp"
#include "prng_tap.hpp"
#include "ntru_gen.hpp"
#include "samplerz.hpp"
#include <fstream>
#include <sstream>
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;
namespace env = shake256::env;
using u128 = unsigned __int128;
using ld = long double;

static u128 dec(const char* s) { u128 v = 0; for (; *s; s++) v = v * 10 + static_cast<unsigned>(*s - '0'); return v; }
static const u128 TAB[] = { dec("3024686241123004913666"), dec("1564742784480091954050"), dec("636254429462080897535"), dec("199560484645026482916"), dec("47667343854657281903"), dec("8595902006365044063"), dec("1163297957344668388"), dec("117656387352093658"), dec("8867391802663976"), dec("496969357462633"), dec("20680885154299"), dec("638331848991"), dec("14602316184"), dec("247426747"), dec("3104126"), dec("28824"), dec("198"), dec("1") };

// approximate threshold of a trial, only to aim the comparison bytes
static uint64_t aim(double mu, double sigma, double smin, int z0, int b)
{
  const ld r = mu - std::floor(mu), v = b ? 1 + z0 : -z0;
  const ld x = (v - r) * (v - r) / (2 * static_cast<ld>(sigma) * sigma) - static_cast<ld>(z0) * z0 / (2 * 1.8205L * 1.8205L);
  const ld s = std::floor(x / logl(2.0L));
  const int sc = s > 63 ? 63 : static_cast<int>(s);
  ld y = 18446744073709551616.0L * (smin / static_cast<ld>(sigma)) * expl(-(x - s * logl(2.0L))) - 1;
  if (y >= 18446744073709551615.0L) y = 18446744073709551615.0L;
  return static_cast<uint64_t>(y) >> sc;
}

struct Gen
{
  drv::Rng& rng;
  void u72(Bytes& o, u128 u, bool rev)
  {
    Bytes t;
    for (int i = 0; i < 9; i++) t.push_back(static_cast<uint8_t>(u >> (8 * i)));
    if (rev) std::reverse(t.begin(), t.end());
    o.insert(o.end(), t.begin(), t.end());
  }
  int base(u128 u) { int z = 0; for (auto t : TAB) z += u < t; return z; }
  // one trial with the table draw u, sign b; tie bytes equal to the threshold, then dir
  void trial(Bytes& o, double mu, double sigma, double smin, u128 u, int b, int tie, int dir, bool rev)
  {
    u72(o, u, rev);
    o.push_back(static_cast<uint8_t>((rng.next() & 0xfe) | static_cast<unsigned>(b)));
    const uint64_t z = aim(mu, sigma, smin, base(u), b);
    for (int i = 0; i < 8; i++) {
      const int d = static_cast<int>((z >> (56 - 8 * i)) & 255);
      if (i < tie) { o.push_back(static_cast<uint8_t>(d)); continue; }
      int v = dir < 0 ? d - 1 - static_cast<int>(rng.below(d ? static_cast<uint64_t>(d) : 1)) : d + 1 + static_cast<int>(rng.below(d < 255 ? static_cast<uint64_t>(255 - d) : 1));
      if (dir < 0 && rng.coin()) v = d - 1;
      if (dir > 0 && rng.coin()) v = d + 1;
      if (v >= 0 && v <= 255) { o.push_back(static_cast<uint8_t>(v)); return; }
      o.push_back(static_cast<uint8_t>(d)); // cannot differ here in that direction
    }
  }
  double pick_mu(long t)
  {
    const double c[] = { 0., 0.5, -0.5, 1., -1., 0.25, 1e-9, -1e-9, 0.9999999999999999, -0.0, 12345.678, -12345.678, 2000.5, -3., 4095.999999, 6144.75, -6144.25, 100000.3, -100000.7, 0x1p-40, -0x1p-60 };
    return t % 3 == 0 ? c[rng.below(21)] : t % 3 == 1 ? (rng.unit() - 0.5) * 3 : (rng.unit() - 0.5) * 12289;
  }
  double pick_sigma(long t, double smin)
  {
    return t % 5 == 0 ? smin : t % 5 == 1 ? 1.8205 : t % 5 == 2 ? 1.43300980528773 : smin + rng.unit() * (1.8205 - smin);
  }
  u128 pick_u(long t)
  {
    const u128 top = (static_cast<u128>(1) << 72) - 1;
    switch (t % 4) {
      case 0: return TAB[rng.below(18)] + static_cast<u128>(rng.below(3)) - 1;
      case 1: return (static_cast<u128>(rng.below(256)) << 64) | rng.next();
      case 2: { const int sh = static_cast<int>(rng.below(72)); return ((static_cast<u128>(rng.below(256)) << 64) | rng.next()) >> sh; }
      default: return t % 16 == 3 ? 0 : t % 16 == 7 ? top : t % 16 == 11 ? static_cast<u128>(rng.below(40)) : (static_cast<u128>(rng.below(4)) << 64) | (rng.coin() ? ~0ull : 0ull);
    }
  }
};

struct Seen { Bytes b; static void hook(void* a, env::kind_t k, uint64_t, bool prng, const uint8_t* p, size_t n) { auto& s = *static_cast<Seen*>(a); if (prng && k == env::READ) s.b.insert(s.b.end(), p, p + n); } };

static void run(const char* name, double mu, double sigma, double smin, const Bytes& script, bool arr, const char* known = nullptr)
{
  drv::begin(name);
  J j; j.kv("op", "samp").key("mu").fx(mu).key("sigma").fx(sigma).key("smin").fx(smin).kvb("rev", arr);
  if (known) j.kv("known", std::atol(known));
  if (arr) {
    j.kva("b", script.data(), script.size());
    drv::call(j);
    Guard<uint8_t> g(script.size());
    std::copy(script.begin(), script.end(), g.p);
    const auto [z, used] = samplerz::samplerz(mu, sigma, smin, static_cast<const uint8_t*>(g.p), script.size());
    J r; r.kv("z", z).kv("used", static_cast<int64_t>(used)).kvb("mem", g.intact() && std::equal(script.begin(), script.end(), g.p));
    drv::ret(r);
  } else {
    drv::call(j);
    env::ctl.script = script;
    prng::prng_t rng;
    Seen s;
    env::ctl.hook = Seen::hook; env::ctl.arg = &s;
    const int32_t z = samplerz::samplerz(mu, sigma, smin, rng);
    env::ctl.hook = nullptr;
    J r; r.kva("b", s.b.data(), s.b.size()).kv("used", static_cast<int64_t>(s.b.size())).kv("z", z).kvb("mem", true);
    drv::ret(r);
  }
  drv::end();
}

template<size_t LG>
static void polys(drv::Rng& rng, long k)
{
  constexpr size_t N = 1u << LG;
  J h; h.kv("n", N); drv::head(h);
  for (long t = 0; t < k; t++) {
    Bytes sc;
    if (t % 2) { // rare table draws inside a polynomial
      Gen g{ rng };
      for (int i = 0; i < 300; i++) g.trial(sc, 0., 1.43300980528773, N == 512 ? 1.277833697 : 1.298280334, g.pick_u(i), static_cast<int>(rng.below(2)), static_cast<int>(rng.below(3)), rng.coin() ? -1 : 1, false);
    }
    env::ctl.script = sc;
    prng::prng_t r0;
    Seen s;
    Guard<int32_t> p(N);
    drv::begin("genpoly");
    drv::call(J().kv("op", "genpoly"));
    env::ctl.hook = Seen::hook; env::ctl.arg = &s;
    ntru_gen::gen_poly<LG>(p.p, r0);
    env::ctl.hook = nullptr;
    J r; r.kva("b", s.b.data(), s.b.size()).kva("poly", p.p, N).kvb("mem", p.intact());
    drv::ret(r); drv::end();
  }
  drv::head(J());
}

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  env::ctl.det = true;
  env::ctl.det_seed = rng.next();
  const long k = drv::opti(argc, argv, "--k", 1);
  const std::string what = drv::opt(argc, argv, "--what", "all");
  Gen g{ rng };
  const double mins[] = { 1.277833697, 1.298280334 };
  // published known answers
  {
    std::ifstream in(std::string(std::getenv("CORPUS") ? std::getenv("CORPUS") : "/verif/corpus") + "/sampler_kat.txt");
    std::string line;
    long c = 0;
    while (std::getline(in, line)) {
      if (k == 1 && c++ % 6) continue;
      std::istringstream is(line);
      std::string mu, sg, sm, hex, z;
      is >> mu >> sg >> sm >> hex >> z;
      Bytes b;
      for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoi(hex.substr(i, 2), nullptr, 16)));
      run("kat", std::stod(mu), std::stod(sg), std::stod(sm), b, true, z.c_str());
    }
  }
  for (long t = 0; t < 4000 * k; t++) {
    const bool arr = t % 2;
    const double smin = mins[(t >> 1) % 2], mu = g.pick_mu(t), sigma = g.pick_sigma(t / 3, smin);
    Bytes b;
    const long rejects = t % 7 == 0 ? static_cast<long>(rng.below(12)) : static_cast<long>(rng.below(2));
    for (long i = 0; i < rejects; i++) g.trial(b, mu, sigma, smin, g.pick_u(static_cast<long>(rng.below(64))), static_cast<int>(rng.below(2)), static_cast<int>(rng.below(4)), 1, arr);
    g.trial(b, mu, sigma, smin, g.pick_u(t), static_cast<int>(rng.below(2)), static_cast<int>(rng.below(5)), rng.below(4) ? -1 : 1, arr);
    // and enough random bytes for the loop to end
    const size_t n = b.size();
    b.resize(n + 1200);
    rng.bytes(b.data() + n, 1200);
    run("crafted", mu, sigma, smin, b, arr);
  }
  // arrays that end somewhere within an attempt
  for (long t = 0; t < 60 * k; t++) {
    const double smin = mins[t % 2], mu = g.pick_mu(t), sigma = g.pick_sigma(t, smin);
    Bytes b;
    for (long i = 0; i <= t % 3; i++) g.trial(b, mu, sigma, smin, g.pick_u(static_cast<long>(rng.below(64))), static_cast<int>(rng.below(2)), static_cast<int>(rng.below(9)), i == t % 3 ? -1 : 1, true);
    b.resize(b.size() - (t < 20 * k ? 1 : rng.below(std::min<uint64_t>(b.size(), 19) + 1)));
    run("ends", mu, sigma, smin, b, true);
  }
  // every table boundary, accepted at once when possible
  for (int i = 0; i < 18; i++) for (int d = -1; d <= 1; d++) for (int bit = 0; bit < 2; bit++) for (int arr = 0; arr < 2; arr++) for (int mi = 0; mi < 2; mi++) {
    Bytes b;
    const double mu = bit ? 0.75 : 0.125, sigma = 1.8205 - 0.2 * mi;
    g.trial(b, mu, sigma, mins[mi], TAB[i] + static_cast<u128>(d + 1) - 1, bit, 0, -1, arr);
    const size_t n = b.size(); b.resize(n + 1200); rng.bytes(b.data() + n, 1200);
    run("table", mu, sigma, mins[mi], b, arr);
  }
  // comparisons that run to the last byte: tiny thresholds, zero bytes
  for (int i = 0; i < 60; i++) for (int arr = 0; arr < 2; arr++) {
    Bytes b;
    const double smin = mins[i % 2], sigma = smin + 0.002 * (i / 4), mu = i % 4 == 0 ? 0. : rng.unit();
    const u128 u = i % 3 == 0 ? 0 : TAB[17 - static_cast<size_t>(i % 5)] - 1;
    for (int c = 0; c < 3; c++) {
      g.u72(b, u, arr); b.push_back(static_cast<uint8_t>((c + i) & 1));
      for (int q = 0; q < 8; q++) b.push_back(q < 7 ? 0 : static_cast<uint8_t>(c == 2 ? rng.below(3) : 0));
    }
    const size_t n = b.size(); b.resize(n + 1200); rng.bytes(b.data() + n, 1200);
    run("deep", mu, sigma, smin, b, arr);
  }
  // exponents next to the multiples of ln 2, where x = s ln2 + r turns over
  for (int m = 1; m <= 58; m++) for (long t = 0; t < 3 * k; t++) for (int arr = 0; arr < 2; arr++) {
    const double smin = mins[rng.below(2)], t1 = 1. / (2. * 1.8205 * 1.8205), ln2 = 0.6931471805599453, x = m * ln2;
    for (int tries = 0; tries < 400; tries++) {
      const double sigma = smin + rng.unit() * (1.8205 - smin), t0 = 1. / (2. * sigma * sigma);
      const int z0 = static_cast<int>(rng.below(18)), b = static_cast<int>(rng.below(2));
      const double dist = std::sqrt((x + z0 * z0 * t1) / t0); // |v - r|
      double r = b ? 1 + z0 - dist : dist - z0;
      if (!(r >= 0.01 && r < 0.999)) continue;
      for (int i = 0; i < 12; i++) r = std::nextafter(r, 0.);
      const double to = x - std::ldexp(static_cast<double>(rng.below(3)), std::ilogb(x) - 52) * (rng.coin() ? 1 : 0);
      bool hit = false;
      for (int i = 0; i < 25 && !hit; i++) {
        const double d = (b ? 1 + z0 : -z0) - r;
        const double t3 = d * d, t5 = z0 * z0; // rounded as the build rounds it
        hit = t3 * t0 - t5 * t1 == to;
        if (!hit) r = std::nextafter(r, 1.);
      }
      if (!hit) continue;
      Bytes bs;
      const u128 u = TAB[z0] + (z0 ? rng.next() % static_cast<uint64_t>(std::min<u128>(TAB[z0 - 1] - TAB[z0], ~0ull)) : rng.next());
      for (int i = 0; i < 6; i++) g.trial(bs, r, sigma, smin, u, b, (m + 3) / 8 + i / 2 % 2 + (i > 3), i % 2 ? -1 : 1, arr);
      const size_t n = bs.size(); bs.resize(n + 1200); rng.bytes(bs.data() + n, 1200);
      run("ln2", r, sigma, smin, bs, arr);
      break;
    }
  }
  polys<9>(rng, 2 * k);
  polys<10>(rng, 2 * k);
  return drv::close();
}
