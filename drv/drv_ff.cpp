// Records the complete operation tables of the field (C08).
#include "drv.hpp"
#include "ff.hpp"
#include <sstream>
#include <thread>
using ff::ff_t;
static constexpr unsigned Q = 12289;
static inline uint16_t val(const ff_t& x) { return x.v; }
static ff_t mk(unsigned v) { ff_t x{}; x.v = static_cast<uint16_t>(v); return x; }

static void out_rows(const char* fn, const std::string& file)
{
  drv::arm(0);
  for (unsigned t = 0; t < 16; t++) {
    drv::J k; k.kv("op", "table").kv("fn", fn).kv("file", file.c_str()).kv("lo", Q * t / 16).kv("hi", Q * (t + 1) / 16 - 1);
    drv::single(std::string("table-") + fn, k);
  }
}

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  const std::string dir = drv::opt(argc, argv, "--dir", ".");
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  struct op_t { const char* name; uint16_t (*f)(unsigned, unsigned); };
  static const op_t ops[] = {
    { "add", [](unsigned a, unsigned b) { return val(mk(a) + mk(b)); } },
    { "sub", [](unsigned a, unsigned b) { return val(mk(a) - mk(b)); } },
    { "mul", [](unsigned a, unsigned b) { return val(mk(a) * mk(b)); } },
    { "div", [](unsigned a, unsigned b) { return val(mk(a) / mk(b)); } },
    { "addto", [](unsigned a, unsigned b) { ff_t x = mk(a); x += mk(b); return val(x); } },
    { "multo", [](unsigned a, unsigned b) { ff_t x = mk(a); x *= mk(b); return val(x); } },
    // comparison results as a bit mask: == != > >= < <=
    { "cmp", [](unsigned a, unsigned b) {
        const ff_t x = mk(a), y = mk(b);
        return static_cast<uint16_t>((x == y) | (x != y) << 1 | (x > y) << 2 | (x >= y) << 3 | (x < y) << 4 | (x <= y) << 5); } },
  };
  const std::string only = drv::opt(argc, argv, "--fn", "");
  for (const auto& o : ops) {
    if (only != o.name) continue;
    const std::string file = dir + "/" + o.name + ".bin";
    drv::begin(std::string("table-") + o.name);
    drv::J j; j.kv("op", "table").kv("fn", o.name).kv("file", file.c_str());
    drv::call(j, 300);
    FILE* f = std::fopen(file.c_str(), "wb");
    if (!f) { std::perror(file.c_str()); return 2; }
    const unsigned T = 8;
    std::vector<uint16_t> tab(static_cast<size_t>(Q) * Q);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; t++)
      th.emplace_back([&, t] {
        for (unsigned a = t; a < Q; a += T)
          for (unsigned b = 0; b < Q; b++) tab[static_cast<size_t>(a) * Q + b] = o.f(a, b);
      });
    for (auto& t : th) t.join();
    std::fwrite(tab.data(), 2, tab.size(), f);
    std::fclose(f);
    out_rows(o.name, file);
    return drv::close();
  }
  // unary operations and construction
  {
    std::vector<int> v(Q);
    for (unsigned a = 0; a < Q; a++) v[a] = val(-mk(a));
    drv::J j; j.kv("op", "unary").kv("fn", "neg").kva("r", v.data(), Q); drv::single("neg", j);
    for (unsigned a = 0; a < Q; a++) v[a] = val(mk(a).inv());
    drv::J k; k.kv("op", "unary").kv("fn", "inv").kva("r", v.data(), Q); drv::single("inv", k);
    std::vector<int> c(65536);
    for (unsigned a = 0; a < 65536; a++) c[a] = val(ff_t{ static_cast<uint16_t>(a) });
    drv::J m; m.kv("op", "unary").kv("fn", "make").kva("r", c.data(), 65536); drv::single("make", m);
    drv::J n; n.kv("op", "const").kv("zero", val(ff_t::zero())).kv("one", val(ff_t::one())); drv::single("const", n);
  }
  // powers: exponents at every bit length, boundaries, multiples of q-1
  {
    std::vector<uint64_t> ex{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12287, 12288, 12289, 12290, 24576, 24577, 0xffffffffull, 0x100000000ull, 0xffffffffffffffffull, 0x8000000000000000ull };
    for (unsigned k = 2; k < 64; k++) { ex.push_back(1ull << k); ex.push_back((1ull << k) - 1); ex.push_back((1ull << k) | (rng.next() >> (64 - k))); }
    const long npow = drv::opti(argc, argv, "--pow", 97);
    for (uint64_t n : ex) {
      // exact value depends on n mod (q-1) and on n = 0: bits given explicitly
      std::vector<int> bits, base, r;
      for (unsigned k = 0; k < 64; k++) bits.push_back(static_cast<int>((n >> k) & 1));
      for (long i = 0; i < npow; i++) {
        const unsigned a = i < 4 ? static_cast<unsigned>(i) : i < 6 ? Q - 1 - static_cast<unsigned>(i - 4) : static_cast<unsigned>(rng.below(Q));
        base.push_back(static_cast<int>(a));
        r.push_back(val(mk(a) ^ static_cast<size_t>(n)));
      }
      drv::J j; j.kv("op", "pow").kva("bits", bits.data(), 64).kva("a", base.data(), base.size()).kva("r", r.data(), r.size());
      drv::single("pow", j);
    }
  }
  // shifts of every element by every width (16-bit values)
  for (unsigned l = 0; l < 16; l++) {
    std::vector<int> v(Q);
    for (unsigned a = 0; a < Q; a++) v[a] = val(mk(a) << l);
    drv::J j; j.kv("op", "shift").kv("dir", "l").kv("w", l).kva("r", v.data(), Q); drv::single("shl", j);
    for (unsigned a = 0; a < Q; a++) v[a] = val(mk(a) >> l);
    drv::J k; k.kv("op", "shift").kv("dir", "r").kv("w", l).kva("r", v.data(), Q); drv::single("shr", k);
  }
  // the text form: "Z_q(v, q)"
  {
    std::vector<int> bad;
    for (unsigned a = 0; a < Q; a++) {
      std::ostringstream o;
      o << mk(a);
      if (o.str() != "Z_q(" + std::to_string(a) + ", 12289)") bad.push_back(static_cast<int>(a));
    }
    drv::J j; j.kv("op", "text").kva("bad", bad.data(), bad.size()); drv::single("text", j);
  }
  // random elements: how often each 16-bit value came (values beyond the
  // field in the last entry)
  {
    const long draws = drv::opti(argc, argv, "--draws", 1600000);
    const unsigned T = 8;
    std::vector<std::vector<int>> part(T, std::vector<int>(Q + 1));
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; t++)
      th.emplace_back([&, t] {
        for (long i = t; i < draws; i += T) part[t][std::min<unsigned>(val(ff_t::random()), Q)]++;
      });
    for (auto& t : th) t.join();
    std::vector<int> r(Q + 1);
    for (unsigned t = 0; t < T; t++) for (unsigned a = 0; a <= Q; a++) r[a] += part[t][a];
    drv::J j; j.kv("op", "random").kv("draws", draws).kva("r", r.data(), r.size()); drv::single("random", j);
  }
  return drv::close();
}
