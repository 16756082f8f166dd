#pragma once
// Common parts of the trace drivers: deterministic randomness, JSON event
// histories (one line per history), guarded buffers, crash/hang events.
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <gmpxx.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define DRV_ASAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#endif

namespace drv {

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return next() % n; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool coin(unsigned n = 2) { return below(n) == 0; }
  void bytes(uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = static_cast<uint8_t>(next() >> 32); }
  double unit() { return static_cast<double>(next() >> 11) * 0x1p-53; }
};

// ---------------------------------------------------------------- JSON
struct J
{
  std::string s;
  J& raw(const char* t) { s += t; return *this; }
  J& raw(const std::string& t) { s += t; return *this; }
  J& key(const char* k)
  {
    if (!s.empty() && s.back() != '{' && s.back() != '[') s += ',';
    s += '"'; s += k; s += "\":";
    return *this;
  }
  J& num(int64_t v) { s += std::to_string(v); return *this; }
  J& kv(const char* k, int64_t v) { key(k); return num(v); }
  J& kv(const char* k, const char* v) { key(k); s += '"'; s += v; s += '"'; return *this; }
  J& kvb(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  template<class It>
  J& arr(It b, size_t n)
  {
    s += '[';
    for (size_t i = 0; i < n; i++) { if (i) s += ','; char t[24]; s.append(t, static_cast<size_t>(std::snprintf(t, sizeof t, "%lld", static_cast<long long>(b[i])))); }
    s += ']';
    return *this;
  }
  template<class It>
  J& kva(const char* k, It b, size_t n) { key(k); return arr(b, n); }
  J& big(const mpz_class& v)
  {
    s += '[';
    num(sgn(v));
    mpz_class m = abs(v), r;
    while (m != 0) {
      r = m & 32767;
      s += ','; num(r.get_si());
      m >>= 15;
    }
    s += ']';
    return *this;
  }
  J& u64(uint64_t v) // as a big integer
  {
    s += '['; num(v ? 1 : 0);
    while (v) { s += ','; num(static_cast<int64_t>(v & 32767)); v >>= 15; }
    s += ']';
    return *this;
  }
  // fixed point, truncated to 75 fractional bits (towards zero); non-finite
  // values give the string "nan", which no specification value equals
  J& fx(double d)
  {
    if (!std::isfinite(d)) { s += "\"nan\""; return *this; }
    if (d == 0) { s += "[0]"; return *this; }
    int e;
    const double m = std::frexp(std::fabs(d), &e);
    uint64_t mant = static_cast<uint64_t>(std::ldexp(m, 53));
    int sh = e - 53 + 75; // value = mant * 2^sh at scale 75
    if (sh < 0) { mant = sh <= -64 ? 0 : mant >> -sh; sh = 0; }
    if (!mant) { s += "[0]"; return *this; }
    s += d < 0 ? "[-1" : "[1";
    for (; sh >= 15; sh -= 15) s += ",0";
    unsigned __int128 w = static_cast<unsigned __int128>(mant) << sh;
    while (w) { s += ','; num(static_cast<int64_t>(w & 32767)); w >>= 15; }
    s += ']';
    return *this;
  }
  template<class C>
  J& cplx(const C& c) { s += '['; fx(c.real()); s += ','; fx(c.imag()); s += ']'; return *this; }
  template<class C>
  J& kvc(const char* k, const C* v, size_t n)
  {
    key(k); s += '[';
    for (size_t i = 0; i < n; i++) { if (i) s += ','; cplx(v[i]); }
    s += ']';
    return *this;
  }
};

// ---------------------------------------------------------------- output
struct Out
{
  FILE* f = nullptr;
  std::string hist;    // events of the current history, already complete
  std::string pending; // fields of the call in progress (without braces)
  std::string name;
  std::string head;    // further fields of the history object: ,"k":v...
  size_t histories = 0, events = 0;
};
inline Out out;
inline unsigned hang_s = 20;

inline void arm(unsigned s)
{
  itimerval t{};
  t.it_value.tv_sec = s;
  setitimer(ITIMER_REAL, &t, nullptr);
}

inline void head(const J& j) { out.head = j.s.empty() ? "" : "," + j.s; }
inline void begin(const std::string& name) { out.name = name; out.hist.clear(); out.pending.clear(); }
// start of a call: its arguments are on record before it runs
inline void call(const J& j, unsigned limit_s = 0) { out.pending = j.s; arm(limit_s ? limit_s : hang_s); }
// end of the call: results appended
inline void ret(const J& j)
{
  arm(0);
  if (!out.hist.empty()) out.hist += ',';
  out.hist += '{';
  out.hist += out.pending;
  if (!j.s.empty()) { if (!out.pending.empty()) out.hist += ','; out.hist += j.s; }
  out.hist += '}';
  out.pending.clear();
  out.events++;
}
inline void event(const J& j) { out.pending.clear(); ret(j); }
inline void end()
{
  std::fprintf(out.f, "{\"h\":\"%s\"%s,\"ev\":[%s]}\n", out.name.c_str(), out.head.c_str(), out.hist.c_str());
  out.histories++;
  out.hist.clear();
}
inline void single(const std::string& name, const J& j) { begin(name); event(j); end(); }

inline bool dying = false;
inline void die_event(const char* how)
{
  if (dying) _exit(98);
  dying = true;
  std::fprintf(out.f, "{\"h\":\"%s\"%s,\"ev\":[%s%s{%s%s\"crash\":\"%s\"}]}\n", out.name.c_str(), out.head.c_str(), out.hist.c_str(),
               out.hist.empty() ? "" : ",", out.pending.c_str(), out.pending.empty() ? "" : ",", how);
  std::fflush(out.f);
}
inline void on_signal(int sig)
{
  const char* n = sig == SIGALRM ? "hang" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
  die_event(n);
  _exit(97);
}
inline void on_asan() { die_event("sanitizer"); }

inline void open(const char* path)
{
  out.f = std::fopen(path, "w");
  if (!out.f) { std::perror(path); std::exit(2); }
  static char big[1 << 20];
  std::setvbuf(out.f, big, _IOFBF, sizeof big);
  stack_t ss{};
  ss.ss_size = 1 << 18;
  ss.ss_sp = std::malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
#ifdef DRV_ASAN
  __sanitizer_set_death_callback(on_asan);
  sigaction(SIGALRM, &sa, nullptr);
#else
  for (int s : { SIGALRM, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
#endif
}
inline int close()
{
  std::fclose(out.f);
  std::printf("histories=%zu events=%zu\n", out.histories, out.events);
  return 0;
}

// ---------------------------------------------------------------- buffers
// n elements flush against an inaccessible page, canary bytes before them
template<class T>
struct Guard
{
  uint8_t* base; size_t len; T* p; size_t n; size_t pages;
  static constexpr uint8_t C = 0xA5;
  explicit Guard(size_t n_) : n(n_)
  {
    const size_t pg = 4096;
    pages = (n * sizeof(T) + 64 + pg - 1) / pg;
    len = (pages + 2) * pg;
    base = static_cast<uint8_t*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base, pg, PROT_NONE);
    mprotect(base + (pages + 1) * pg, pg, PROT_NONE);
    // keep natural alignment of T
    uint8_t* e = base + (pages + 1) * pg;
    p = reinterpret_cast<T*>(e - n * sizeof(T));
    std::memset(base + pg, C, static_cast<size_t>(reinterpret_cast<uint8_t*>(p) - (base + pg)));
  }
  ~Guard() { munmap(base, len); }
  Guard(const Guard&) = delete;
  bool intact() const
  {
    for (uint8_t* q = base + 4096; q < reinterpret_cast<uint8_t*>(p); q++) if (*q != C) return false;
    return true;
  }
  void fill(uint8_t b) { std::memset(static_cast<void*>(p), b, n * sizeof(T)); }
  operator T*() { return p; }
  T& operator[](size_t i) { return p[i]; }
};

inline const char* opt(int argc, char** argv, const char* name, const char* def)
{
  for (int i = 1; i + 1 < argc; i++) if (!std::strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
inline long opti(int argc, char** argv, const char* name, long def)
{
  const char* v = opt(argc, argv, name, nullptr);
  return v ? std::atol(v) : def;
}
} // namespace drv
