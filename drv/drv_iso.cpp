// Isolation (C16): the same calls alone, in sequences, under schedules chosen
// by the specification (switching at function boundaries) and free-running.
// Every run happens in a child process of its own; the parent calls nothing.
#include "drv.hpp"
#include "prng_tap.hpp"
#include "keys.hpp"
#include "script.hpp"
#include "falcon.hpp"
#include <atomic>
#include <condition_variable>
#include <algorithm>
#include <fstream>
#include <map>
#include <functional>
#include <mutex>
#include <sys/wait.h>
#include <thread>
#define NOYIELD __attribute__((no_instrument_function))
using drv::Guard;
using drv::J;
using fft::cmplx;
namespace env = shake256::env;

// ---------------------------------------------------------------- yields
struct Baton
{
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> order;      // thread of each turn
  size_t turn = 0;
  std::vector<bool> done;
  NOYIELD int now() { while (turn < order.size() && done[static_cast<size_t>(order[turn])]) turn++; return turn < order.size() ? order[turn] : -1; }
  int patience = 1;            // seconds without a switch: the running call waits for one that is held (a once-only initialisation, say); run freely
  NOYIELD void wait(int me)
  {
    std::unique_lock<std::mutex> l(m);
    for (size_t seen = turn;; seen = turn) {
      if (cv.wait_for(l, std::chrono::seconds(patience), [&] { const int n = now(); return n == me || n == -1; })) return;
      if (turn == seen) { turn = order.size(); cv.notify_all(); return; }
    }
  }
  NOYIELD void pass(int me) { { std::unique_lock<std::mutex> l(m); now(); turn++; } cv.notify_all(); wait(me); }
  NOYIELD void end(int me) { { std::unique_lock<std::mutex> l(m); done[static_cast<size_t>(me)] = true; } cv.notify_all(); }
};
struct Yield { bool on = false; uint64_t n = 0; Baton* b = nullptr; int me = 0; std::vector<uint64_t> at; size_t next = 0; };
static thread_local Yield yl;
static NOYIELD void yield_point()
{
  if (!yl.on) return;
  yl.n++;
  if (yl.b && yl.next < yl.at.size() && yl.n == yl.at[yl.next]) { yl.on = false; yl.next++; yl.b->pass(yl.me); yl.on = true; }
}
extern "C" NOYIELD void __cyg_profile_func_enter(void*, void*) { yield_point(); }
extern "C" NOYIELD void __cyg_profile_func_exit(void*, void*) { yield_point(); }
static NOYIELD void on_note(void*, env::kind_t, uint64_t, bool, const uint8_t*, size_t) { yield_point(); }

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
static std::atomic<int> races{ 0 };
extern "C" void __tsan_on_report(void*) { races++; }
extern "C" const char* __tsan_default_options() { return "report_bugs=1:exitcode=0:halt_on_error=0:atexit_sleep_ms=0"; }
#endif
#endif
#ifndef TSAN
static std::atomic<int> races{ 0 };
#endif

// ---------------------------------------------------------------- calls
struct Rec { std::string fn, inp, out; bool ro, guard; uint64_t yields; };
struct Digest
{
  uint64_t a = 0xcbf29ce484222325ull, b = 0x9ae16a3b2f90404full;
  void add(const void* p, size_t n) { auto* c = static_cast<const uint8_t*>(p); for (size_t i = 0; i < n; i++) { a = (a ^ c[i]) * 0x100000001b3ull; b = (b + c[i] + 1) * 0xd6e8feb86659fd93ull; b ^= b >> 29; } }
  std::string str() const { char t[40]; std::snprintf(t, sizeof t, "%016llx%016llx", static_cast<unsigned long long>(a), static_cast<unsigned long long>(b)); return t; }
};

template<size_t N>
struct World
{
  using K = keys::Key<N>;
  static constexpr size_t LG = N == 512 ? 9 : 10, TS = N * (LG + 1), SG = K::SG;
  // one set of inputs, in read-only pages while calls run
  struct In
  {
    Guard<int32_t> f{ N }, g{ N }, F{ N }, G{ N }, s2{ N };
    Guard<uint8_t> pk{ K::PK }, sk{ K::SK }, sig{ SG }, msg{ 24 }, salt{ 40 };
    Guard<ff::ff_t> h{ N };
    Guard<cmplx> B{ 4 * N }, T{ TS };
    int64_t no = -1;
    template<class Fn> void each(Fn fn) { fn(f); fn(g); fn(F); fn(G); fn(s2); fn(pk); fn(sk); fn(sig); fn(msg); fn(salt); fn(h); fn(B); fn(T); }
    void lock(bool ro) { each([&](auto& x) { mprotect(x.base + 4096, x.pages * 4096, ro ? PROT_READ : PROT_READ | PROT_WRITE); }); }
    bool clean() { bool c = true; each([&](auto& x) { c = c && x.intact(); }); return c; }
    std::string digest() { Digest d; each([&](auto& x) { d.add(x.p, x.n * sizeof(*x.p)); }); return d.str(); }
  };
  // contents of an input set
  struct Src { K k; Bytes msg, salt, sig; std::vector<cmplx> B, T; std::vector<int32_t> s2; };
  std::vector<Src> src;
  std::vector<int16_t> cands;

  void fill(In& in, size_t no)
  {
    in.lock(false);
    const Src& s = src[no];
    std::copy(s.k.f, s.k.f + N, in.f.p); std::copy(s.k.g, s.k.g + N, in.g.p); std::copy(s.k.F, s.k.F + N, in.F.p); std::copy(s.k.G, s.k.G + N, in.G.p);
    std::copy(s.k.pk.begin(), s.k.pk.end(), in.pk.p); std::copy(s.k.sk.begin(), s.k.sk.end(), in.sk.p); std::copy(s.sig.begin(), s.sig.end(), in.sig.p);
    std::copy(s.msg.begin(), s.msg.end(), in.msg.p); std::copy(s.salt.begin(), s.salt.end(), in.salt.p); std::copy(s.s2.begin(), s.s2.end(), in.s2.p);
    for (size_t i = 0; i < N; i++) in.h[i].v = s.k.h[i];
    std::copy(s.B.begin(), s.B.end(), in.B.p); std::copy(s.T.begin(), s.T.end(), in.T.p);
    in.no = static_cast<int64_t>(no);
    in.lock(true);
  }
  static inline int forks = 0; // children so far
  // outputs of one thread, the same buffers for every call
  struct Out
  {
    Guard<uint8_t> sig{ SG }, pk{ K::PK }, sk{ K::SK }, salt{ 40 };
    Guard<int32_t> a{ N }, b{ N }, c{ N }, d{ N };
    Guard<ff::ff_t> h{ N };
    Guard<cmplx> B{ 4 * N }, T{ TS };
    template<class Fn> void each(Fn fn) { fn(sig); fn(pk); fn(sk); fn(salt); fn(a); fn(b); fn(c); fn(d); fn(h); fn(B); fn(T); }
    // what the buffers hold when a call starts: another byte for every call
    // and every process, as nothing a call returns may depend on it
    uint64_t calls = 0;
    uint8_t stale() { drv::Rng r(0x57a1e + 1000 * static_cast<uint64_t>(forks) + calls++); return static_cast<uint8_t>(r.next()); }
    bool clean() { bool x = true; each([&](auto& g) { x = x && g.intact(); }); return x; }
  };
  static inline const char* const names[] = { "signsk", "sign", "verify", "hash", "expand", "encpk", "decpk", "encsk", "decsk", "comp", "decsig", "pubkey", "ntt", "fft", "sampler", "recompute", "solve", "keygen", "lowkey" };
  static constexpr int OPS = 19, CHEAP = 17;

  // runs the call; only what it writes by contract goes into the digest, and
  // everything else in `o` has to stay
  Rec call(int op, In& in, Out& o, uint64_t gen)
  {
    static constexpr double SMIN = N == 512 ? 1.277833697 : 1.298280334, SIG = N == 512 ? 165.736617183 : 168.388571447;
    const uint8_t stale = o.stale();
    o.each([&](auto& g) { g.fill(stale); });
    env::ctl.det = true; env::ctl.det_seed = gen; env::ctl.next_id = 0; env::ctl.hook = on_note;
    if (op >= CHEAP) { // a good candidate
      env::ctl.script.clear();
      drv::Rng r(gen);
      Script sc{ r };
      const K& k = src[static_cast<size_t>(in.no)].k;
      for (const int32_t* p : { k.f, k.g }) for (size_t i = 0; i < N; i++) { int left = p[i]; for (int j = 4096 / N; j; j--) { const int v = left / j; sc.frame(env::ctl.script, v); left -= v; } }
    }
    Digest d;
    bool rest = true;
    std::vector<const void*> written;
    auto wrote = [&](auto& g) { d.add(g.p, g.n * sizeof(*g.p)); written.push_back(g.p); };
    auto touched = [&](auto& g) { written.push_back(g.p); }; // a refused input: what is left there is nothing
    auto flag = [&](bool v) { const uint8_t b = v; d.add(&b, 1); };
    yl.n = 0; yl.on = true;
    switch (op) {
      case 0: { const bool r = falcon::sign<N>(static_cast<const uint8_t*>(in.sk.p), in.msg.p, in.msg.n, o.sig.p); yl.on = false; flag(r); if (r) wrote(o.sig); else touched(o.sig); break; }
      case 1: { prng::prng_t r; falcon::sign<N>(static_cast<const cmplx*>(in.B.p), static_cast<const cmplx*>(in.T.p), in.msg.p, in.msg.n, o.sig.p, r); yl.on = false; wrote(o.sig); break; }
      case 2: { const bool r = falcon::verify<N>(in.pk.p, in.msg.p, in.msg.n, in.sig.p); yl.on = false; flag(r); break; }
      case 3: hashing::hash_to_point<N>(in.salt.p, 40, in.msg.p, in.msg.n, o.h.p); yl.on = false; wrote(o.h); break;
      case 4: falcon::compute_matrix_B<N>(in.f.p, in.g.p, in.F.p, in.G.p, o.B.p); falcon::compute_falcon_tree<N>(o.B.p, o.T.p); yl.on = false; wrote(o.B); wrote(o.T); break;
      case 5: encoding::encode_pkey<N>(in.h.p, o.pk.p); yl.on = false; wrote(o.pk); break;
      case 6: { const bool r = decoding::decode_pkey<N>(in.pk.p, o.h.p); yl.on = false; flag(r); if (r) wrote(o.h); else touched(o.h); break; }
      case 7: encoding::encode_skey<N>(in.f.p, in.g.p, in.F.p, o.sk.p); yl.on = false; wrote(o.sk); break;
      case 8: { const bool r = decoding::decode_skey<N>(in.sk.p, o.a.p, o.b.p, o.c.p); yl.on = false; flag(r); if (r) { wrote(o.a); wrote(o.b); wrote(o.c); } else { touched(o.a); touched(o.b); touched(o.c); } break; }
      case 9: { std::memset(o.sig.p, 0, SG); const bool r = encoding::compress_sig<N, SG>(in.s2.p, o.sig.p); yl.on = false; flag(r); d.add(o.sig.p + 41, SG - 41); rest = std::all_of(o.sig.p, o.sig.p + 41, [](uint8_t x) { return x == 0; }); written.push_back(o.sig.p); break; }
      case 10: { const bool r = decoding::decode_sig<N>(in.sig.p, o.salt.p, o.a.p); yl.on = false; flag(r); if (r) { wrote(o.salt); wrote(o.a); } else { touched(o.salt); touched(o.a); } break; }
      case 11: keygen::compute_public_key<N>(in.f.p, in.g.p, o.h.p); yl.on = false; wrote(o.h); break;
      case 12: std::copy(in.h.p, in.h.p + N, o.h.p); ntt::ntt<LG>(o.h.p); yl.on = false; wrote(o.h); yl.on = true; ntt::intt<LG>(o.h.p); yl.on = false; wrote(o.h); break;
      case 13: std::copy(in.B.p, in.B.p + 4 * N, o.B.p); fft::ifft<LG>(o.B.p); fft::fft<LG>(o.B.p + N); yl.on = false; wrote(o.B); break;
      case 14: { prng::prng_t r; for (int i = 0; i < 16; i++) { o.a[static_cast<size_t>(i)] = samplerz::samplerz(0.37 * i - 2 + static_cast<double>(in.no), 1.3 + 0.03 * i, SMIN, r); } yl.on = false; d.add(o.a.p, 64); written.push_back(o.a.p); break; }
      case 15: falcon::recompute_G<N>(in.f.p, in.g.p, in.F.p, o.d.p); yl.on = false; wrote(o.d); break;
      case 16: {
        std::array<mpz_class, 8> f, g;
        for (size_t i = 0; i < 8; i++) { f[i] = in.f[i]; g[i] = in.g[i]; }
        const auto s = ntru_gen::ntru_solve(f, g);
        yl.on = false;
        flag(s.second.is_solution());
        for (size_t i = 0; i < 8; i++) { const std::string t = s.first.first[i].get_str() + "," + s.first.second[i].get_str(); d.add(t.data(), t.size()); }
        break;
      }
      case 17: falcon::keygen<N>(o.pk.p, o.sk.p); yl.on = false; wrote(o.pk); wrote(o.sk); break;
      case 18: { prng::prng_t r; keygen::keygen<N>(o.B.p, o.T.p, o.h.p, SIG, r); yl.on = false; wrote(o.B); wrote(o.T); wrote(o.h); break; }
    }
    yl.on = false;
    o.each([&](auto& g) {
      if (std::find(written.begin(), written.end(), static_cast<const void*>(g.p)) != written.end()) return;
      auto* q = reinterpret_cast<const uint8_t*>(g.p);
      for (size_t i = 0; i < g.n * sizeof(*g.p); i++) if (q[i] != stale) rest = false;
    });
    Rec r{ names[op], "", d.str(), true, rest && o.clean() && in.clean(), yl.n };
    char t[64]; std::snprintf(t, sizeof t, "%d/%llu", static_cast<int>(in.no), static_cast<unsigned long long>(op == 0 || op == 1 || op == 14 || op >= CHEAP ? gen : 0));
    r.inp = t;
    return r;
  }

  // ---- children
  struct Result { std::vector<Rec> recs; bool died; int races; };
  Result child(const std::function<std::vector<Rec>()>& body)
  {
    int fd[2];
    if (pipe(fd)) std::exit(2);
    std::fflush(nullptr);
    forks++;
    const pid_t pid = fork();
    if (!pid) {
      for (int s : { SIGALRM, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, SIG_DFL);
      alarm(120);
      std::string o;
      for (auto& r : body()) o += r.fn + " " + r.inp + " " + r.out + " " + (r.ro ? "1" : "0") + " " + (r.guard ? "1" : "0") + " " + std::to_string(r.yields) + "\n";
      o += "end " + std::to_string(races.load()) + "\n";
      for (size_t at = 0; at < o.size();) { const ssize_t n = write(fd[1], o.data() + at, o.size() - at); if (n <= 0) break; at += static_cast<size_t>(n); }
      _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) s.append(buf, static_cast<size_t>(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Result r{ {}, true, 0 };
    size_t at = 0;
    while (at < s.size()) {
      const size_t e = s.find('\n', at);
      if (e == std::string::npos) break;
      std::string l = s.substr(at, e - at);
      at = e + 1;
      if (l.rfind("end ", 0) == 0) { r.died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); r.races = std::atoi(l.c_str() + 4); break; }
      Rec x; char fn[32], in[64], out[40]; int ro, gu; unsigned long long y;
      if (std::sscanf(l.c_str(), "%31s %63s %39s %d %d %llu", fn, in, out, &ro, &gu, &y) != 6) break;
      x.fn = fn; x.inp = in; x.out = out; x.ro = ro; x.guard = gu; x.yields = y;
      r.recs.push_back(x);
    }
    return r;
  }
  void put(const char* op, const Result& r, size_t want)
  {
    J j; j.kv("op", op).kv("want", static_cast<int64_t>(want)).kvb("died", r.died).kv("races", r.races).key("calls").raw("[");
    for (size_t i = 0; i < r.recs.size(); i++) {
      if (i) j.raw(",");
      const Rec& x = r.recs[i];
      J t; t.kv("fn", x.fn.c_str()).kv("inp", x.inp.c_str()).kv("out", x.out.c_str()).kvb("ro", x.ro).kvb("guard", x.guard);
      j.raw("{" + t.s + "}");
    }
    j.raw("]");
    drv::event(j);
  }
  struct C { int op; size_t in; uint64_t gen; };
  // one after the other, inputs and outputs always at the same addresses
  Result sequence(const std::vector<C>& cs)
  {
    return child([&] {
      std::vector<Rec> v;
      In in; Out o;
      for (auto& c : cs) {
        fill(in, c.in);
        const std::string before = in.digest();
        v.push_back(call(c.op, in, o, c.gen));
        v.back().ro = in.digest() == before;
      }
      return v;
    });
  }
  // at the same time, sharing the inputs; order empty: free-running
  Result together(const std::vector<C>& cs, const std::vector<int>& order, const std::vector<std::vector<uint64_t>>& at)
  {
    return child([&] {
      std::vector<std::unique_ptr<In>> in(src.size());
      std::vector<std::string> before(src.size());
      for (auto& c : cs) if (!in[c.in]) { in[c.in] = std::make_unique<In>(); fill(*in[c.in], c.in); before[c.in] = in[c.in]->digest(); }
      std::vector<std::unique_ptr<Out>> o;
      for (size_t i = 0; i < cs.size(); i++) o.push_back(std::make_unique<Out>());
      std::vector<Rec> v(cs.size());
      Baton b;
      b.order = order;
      for (auto& c : cs) if (c.op >= CHEAP) b.patience = 20;
      b.done.assign(cs.size(), false);
      std::atomic<int> ready{ 0 };
      std::vector<pthread_t> th(cs.size());
      struct Arg { std::function<void()> f; };
      std::vector<Arg> args(cs.size());
      pthread_attr_t pa;
      pthread_attr_init(&pa);
      pthread_attr_setstacksize(&pa, 64u << 20);
      for (size_t i = 0; i < cs.size(); i++) {
        args[i].f = [&, i] {
          if (order.empty()) { ready++; while (ready < static_cast<int>(cs.size())) std::this_thread::yield(); }
          else { yl.b = &b; yl.me = static_cast<int>(i); yl.at = at[i]; yl.next = 0; b.wait(static_cast<int>(i)); }
          v[i] = call(cs[i].op, *in[cs[i].in], *o[i], cs[i].gen);
          yl.b = nullptr;
          if (!order.empty()) b.end(static_cast<int>(i));
        };
        pthread_create(&th[i], &pa, [](void* a) -> void* { static_cast<Arg*>(a)->f(); return nullptr; }, &args[i]);
      }
      for (auto t : th) pthread_join(t, nullptr);
      for (size_t i = 0; i < cs.size(); i++) v[i].ro = in[cs[i].in]->digest() == before[cs[i].in];
      return v;
    });
  }

  void load(drv::Rng& rng, long skip)
  {
    auto ks = keys::load<N>(3, static_cast<size_t>(skip));
    // a key that shares f, g (and the public key) with the first: F + f, G + g
    auto plus = [](const K& k, int s) { K z = k; bool ok = true; for (size_t i = 0; i < N; i++) { z.F[i] += s * k.f[i]; z.G[i] += s * k.g[i]; ok = ok && std::abs(z.F[i]) <= 127; } z.sk = keys::enc_sk<N>(z.f, z.g, z.F); return std::pair(z, ok); };
    std::vector<K> set{ ks[0], ks[1] };
    for (int s : { 1, -1 }) { auto [z, ok] = plus(ks[0], s); if (ok) { set.push_back(z); break; } }
    if (set.size() < 3) set.push_back(ks[2]);
    for (size_t i = 0; i < set.size(); i++) {
      Src s{ set[i], Bytes(24), Bytes(40), Bytes(SG), std::vector<cmplx>(4 * N), std::vector<cmplx>(TS), std::vector<int32_t>(N) };
      rng.bytes(s.msg.data(), 24); rng.bytes(s.salt.data(), 40);
      if (i == 2) { s.msg = src[0].msg; s.salt = src[0].salt; }
      if (i == 1) { std::copy(src[0].msg.begin(), src[0].msg.begin() + 16, s.msg.begin()); std::copy(src[0].salt.begin(), src[0].salt.begin() + 32, s.salt.begin()); }
      src.push_back(s);
    }
    // basis, tree and signatures are made by children
    for (size_t i = 0; i < src.size(); i++) {
      const std::string f = std::string(drv_out) + ".inp";
      const Result r = child([&]() -> std::vector<Rec> {
        Src& s = src[i];
        falcon::compute_matrix_B<N>(s.k.f, s.k.g, s.k.F, s.k.G, s.B.data());
        falcon::compute_falcon_tree<N>(s.B.data(), s.T.data());
        env::ctl.det = true; env::ctl.det_seed = 99 + i;
        falcon::sign<N>(static_cast<const uint8_t*>(s.k.sk.data()), s.msg.data(), s.msg.size(), s.sig.data());
        std::ofstream o(f, std::ios::binary);
        o.write(reinterpret_cast<const char*>(s.B.data()), 64 * N); o.write(reinterpret_cast<const char*>(s.T.data()), 16 * TS); o.write(reinterpret_cast<const char*>(s.sig.data()), SG);
        return {};
      });
      std::ifstream x(f, std::ios::binary);
      Src& s = src[i];
      x.read(reinterpret_cast<char*>(s.B.data()), 64 * N); x.read(reinterpret_cast<char*>(s.T.data()), 16 * TS); x.read(reinterpret_cast<char*>(s.sig.data()), SG);
      if (!x) { put("alone", r, 1); }
      std::remove(f.c_str());
      for (auto& v : s.s2) v = static_cast<int>(rng.range(-300, 300));
    }
    // serialized objects that only differ from the first at the very end: a
    // malformed secret key, a public key of one coefficient more, a stray bit
    src.push_back(src[0]);
    Src& e = src.back();
    e.k.sk.back() = 0x80;
    e.k.h[N - 1] = (e.k.h[N - 1] + 1) % 12289;
    e.k.pk[K::PK - 1] = static_cast<uint8_t>(e.k.h[N - 1] >> 6); e.k.pk[K::PK - 2] = static_cast<uint8_t>((e.k.pk[K::PK - 2] & 3) | (e.k.h[N - 1] << 2));
    e.sig.back() ^= 1;
    e.msg.back() ^= 1;
  }
  // calls on serialized objects
  static constexpr int serial[] = { 0, 2, 6, 8, 10 };
  const char* drv_out = "";

  static std::string id(const C& c) { return std::to_string(c.op) + "/" + std::to_string(c.in); }
  void go(drv::Rng& rng, const char* scen, long k, const std::string& what)
  {
    J hd; hd.kv("n", N); drv::head(hd);
    std::vector<std::vector<int>> orders;
    if (scen) {
      std::ifstream f(scen);
      for (std::string l; std::getline(f, l);) { std::vector<int> o; for (char c : l) if (c >= '0' && c <= '9') o.push_back(c - '0'); orders.push_back(o); }
    }
    // the same generator for an operation on an input, wherever it runs
    auto mk = [&](int op, size_t in) { return C{ op, in, 1000 + 10 * static_cast<uint64_t>(op) + in }; };
    std::vector<C> all;
    const size_t full = src.size() - 1;
    for (int op = 0; op < CHEAP; op++) for (size_t in = 0; in < full; in++) all.push_back(mk(op, in));
    for (int op : serial) all.push_back(mk(op, full));
    std::map<std::string, uint64_t> yields;
    drv::begin(what);
    for (auto& c : all) { auto r = sequence({ c }); put("alone", r, 1); if (!r.recs.empty()) yields[id(c)] = r.recs[0].yields; }
    if (what == "sequences") {
      // all ordered pairs, then longer random histories
      for (auto& a : all) {
        std::vector<size_t> p(all.size());
        for (size_t i = 0; i < p.size(); i++) p[i] = i;
        // a, b, a, b' ...: every pair (a, b) back to back, a again after each
        std::vector<C> h;
        for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rng.below(i)]);
        for (size_t i : p) { h.push_back(a); h.push_back(all[i]); }
        if (a.op <= 1 && N == 1024 && k == 1) h.resize(60);
        put("sequence", sequence(h), h.size());
      }
      for (long t = 0; t < 10 * k; t++) { std::vector<C> h; for (int i = 0; i < 60; i++) h.push_back(all[rng.below(all.size())]); put("sequence", sequence(h), h.size()); }
    }
    if (what == "schedules") {
      const size_t step = k == 1 ? 1 : 1;
      const size_t n = orders.size() * static_cast<size_t>(k);
      for (size_t t = 0; t < n; t += step) {
        const auto& o = orders[t % orders.size()];
        const int nt = *std::max_element(o.begin(), o.end()) + 1;
        std::vector<C> cs;
        const int mode = static_cast<int>(t % 3);
        const int op = static_cast<int>(rng.below(CHEAP));
        for (int i = 0; i < nt; i++) {
          // the same operation on different inputs, on the same input, anything
          const C c = mode == 0 ? mk(op, static_cast<size_t>(i) % full) : mode == 1 ? mk(i ? static_cast<int>(rng.below(CHEAP)) : op, rng.below(full)) : mk(op, rng.below(full));
          cs.push_back(c);
        }
        std::vector<std::vector<uint64_t>> at;
        for (auto& c : cs) {
          const uint64_t y = yields[id(c)];
          std::vector<uint64_t> v;
          for (size_t i = 0; i + 1 < o.size() / static_cast<size_t>(nt); i++) v.push_back(1 + rng.below(y ? y : 1));
          std::sort(v.begin(), v.end());
          v.erase(std::unique(v.begin(), v.end()), v.end());
          at.push_back(v);
        }
        put("schedule", together(cs, o, at), cs.size());
      }
    }
    if (what == "free") {
      std::vector<int> ops;
      for (int op = 0; op < CHEAP; op++) ops.push_back(op);
      // every operation with itself, then mixtures
      for (int op : ops) { std::vector<C> cs{ mk(op, 0), mk(op, 1), mk(op, 2), mk(op, 0) }; put("free", together(cs, {}, {}), cs.size()); }
      for (long t = 0; t < 20 * k; t++) { std::vector<C> cs; for (int i = 0; i < 5; i++) cs.push_back(mk(static_cast<int>(rng.below(CHEAP)), rng.below(full))); put("free", together(cs, {}, {}), cs.size()); }
    }
    if (what == "keygen") {
      // key generations among other calls
      std::vector<C> ks{ mk(17, 0), mk(17, 1), mk(18, 0), mk(18, 1) };
      std::map<std::string, uint64_t> y;
      for (auto& c : ks) { auto r = sequence({ c }); put("alone", r, 1); if (!r.recs.empty()) y[id(c)] = r.recs[0].yields; }
      { std::vector<C> h{ ks[0], ks[1], ks[2], mk(0, 1), ks[1], mk(2, 0), ks[0] }; put("sequence", sequence(h), h.size()); }
      auto cut = [&](const C& c, int n) { std::vector<uint64_t> v; for (int i = 0; i < n; i++) v.push_back(1 + rng.below(y[id(c)] ? y[id(c)] : 1)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
      for (long t = 0; t < 2 * k; t++) {
        // key generations switching among themselves often, and with a signature
        for (auto cs : { std::vector<C>{ ks[0], ks[1] }, std::vector<C>{ ks[1], ks[2] } }) {
          std::vector<int> o;
          for (int i = 0; i < 40; i++) { o.push_back(0); o.push_back(1); }
          put("schedule", together(cs, o, { cut(cs[0], 39), cut(cs[1], 39) }), 2);
        }
      }
      { std::vector<C> cs{ ks[0], ks[1], ks[2], ks[3], mk(0, 0), mk(1, 1) }; put("free", together(cs, {}, {}), cs.size()); }
    }
    drv::end();
  }
};

int main(int argc, char** argv)
{
  const char* out = drv::opt(argc, argv, "--out", "trace.ndjson");
  drv::open(out);
  const uint64_t seed = static_cast<uint64_t>(drv::opti(argc, argv, "--seed", 1));
  drv::Rng rng(seed);
  const char* scen = drv::opt(argc, argv, "--scen", nullptr);
  const long k = drv::opti(argc, argv, "--k", 1);
  const std::string what = drv::opt(argc, argv, "--what", "sequences");
  auto go = [&](auto& w) { w.drv_out = out; drv::begin("inputs"); w.load(rng, static_cast<long>(seed)); w.go(rng, scen, k, what); };
  if (drv::opti(argc, argv, "--lg", 9) == 9) { auto w = std::make_unique<World<512>>(); go(*w); }
  else { auto w = std::make_unique<World<1024>>(); go(*w); }
  return drv::close();
}
