// The text form of byte strings (C19).
#include "drv.hpp"
#include "common.hpp"
#include <thread>
using drv::Guard;
using drv::J;
using Bytes = std::vector<uint8_t>;

static void put_text(J& j, const std::string& s)
{
  std::vector<int> c;
  for (unsigned char x : s) c.push_back(x);
  j.kva("t", c.data(), c.size());
}

// bytes -> text; the input lies against a guard page and must not change
static std::string text_of(const Bytes& b)
{
  Guard<uint8_t> in(b.size());
  std::copy(b.begin(), b.end(), in.p);
  J j;
  j.kv("op", "text").kva("b", b.data(), b.size());
  drv::call(j);
  const std::string s = to_hex(in.p, b.size());
  J r;
  put_text(r, s);
  r.kvb("mem", in.intact() && std::equal(b.begin(), b.end(), in.p));
  drv::ret(r);
  return s;
}

// text -> bytes; the output lies against a guard page
static void bytes_of(const char* op, const std::string& s, uint8_t fill)
{
  const std::string keep = s.c_str();
  Guard<uint8_t> out(s.size() / 2);
  out.fill(fill);
  J j;
  j.kv("op", op);
  put_text(j, s);
  drv::call(j);
  to_byte_array(s, out.p);
  J r;
  r.kva("b", out.p, out.n).kvb("mem", out.intact() && s == keep);
  drv::ret(r);
}

int main(int argc, char** argv)
{
  drv::open(drv::opt(argc, argv, "--out", "trace.ndjson"));
  drv::Rng rng(static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1)));
  const long k = drv::opti(argc, argv, "--k", 1);
  long nth = 0;
  auto both = [&](const Bytes& b) {
    drv::begin("hex-" + std::to_string(nth++));
    const std::string s = text_of(b);
    bytes_of("back", s, static_cast<uint8_t>(rng.next()));
    drv::end();
  };
  auto read = [&](const std::string& s) {
    drv::begin("read-" + std::to_string(nth++));
    bytes_of("bytes", s, static_cast<uint8_t>(rng.next()));
    drv::end();
  };
  both({});
  for (int a = 0; a < 256; a++) both({ static_cast<uint8_t>(a) });
  // every pair of neighbours
  for (int a = 0; a < 256; a++) {
    Bytes b;
    for (int c = 0; c < 256; c++) { b.push_back(static_cast<uint8_t>(a)); b.push_back(static_cast<uint8_t>(c)); }
    both(b);
  }
  // every length, ordinary and of one value, sizes of the library's objects
  std::vector<size_t> len;
  for (size_t n = 2; n < 200; n++) len.push_back(n);
  for (size_t n : { 255, 256, 257, 511, 512, 513, 666, 897, 1024, 1280, 1281, 1793, 2305, 4095, 4096, 4097, 40000 }) len.push_back(n);
  for (long q = 0; q < k; q++)
    for (size_t n : len) {
      Bytes b(n);
      rng.bytes(b.data(), n);
      if (rng.coin(4)) std::fill(b.begin(), b.end(), static_cast<uint8_t>(rng.coin() ? 0 : rng.next()));
      if (rng.coin(4)) for (auto& x : b) x &= rng.coin() ? 0x0f : 0xf0;
      both(b);
      // either case of the letters, a digit left over
      std::string s;
      const size_t m = 2 * n + rng.below(2);
      const unsigned up = static_cast<unsigned>(rng.below(3));
      for (size_t i = 0; i < m; i++) s += (up == 0 || (up == 1 && rng.coin()) ? "0123456789ABCDEF" : "0123456789abcdef")[rng.below(16)];
      read(s);
    }
  for (int a = 0; a < 22; a++) {
    const char* d = "0123456789abcdefABCDEF";
    read(std::string(1, d[a]));
    for (int b = 0; b < 22; b++) {
      read(std::string{ d[a], d[b] });
      read(std::string{ d[b], d[a], d[b] });
    }
  }
  // several threads at the same time
  {
    const unsigned T = 4;
    std::vector<Bytes> in(T);
    std::vector<std::string> t(T);
    std::vector<Bytes> out(T);
    for (unsigned i = 0; i < T; i++) { in[i].resize(3000); rng.bytes(in[i].data(), 3000); out[i].resize(3000); }
    std::vector<std::thread> th;
    for (unsigned i = 0; i < T; i++)
      th.emplace_back([&, i] {
        for (int r = 0; r < 20; r++) { t[i] = to_hex(in[i].data(), in[i].size()); to_byte_array(t[i], out[i].data()); }
      });
    for (auto& x : th) x.join();
    for (unsigned i = 0; i < T; i++) {
      drv::begin("thread-" + std::to_string(i));
      J j;
      j.kv("op", "text").kva("b", in[i].data(), in[i].size());
      put_text(j, t[i]);
      j.kvb("mem", true);
      drv::event(j);
      J q;
      q.kv("op", "back").kva("b", out[i].data(), out[i].size());
      put_text(q, t[i]);
      q.kvb("mem", true);
      drv::event(q);
      drv::end();
    }
  }
  return drv::close();
}
