#pragma once
// SHAKE256 with the interface of the (absent) sha3 submodule, as used by
// /repo/include, plus the environment controls of the verification drivers:
// every absorb / squeeze can be observed (hook), and the output of the next
// instance can be scripted.  With no control set it is plain SHAKE256.
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>

namespace shake256 {

constexpr size_t rate = 1088; // bits

namespace env {

enum kind_t { SEED, ABSORB, FINALIZE, READ, NEW };

struct control_t
{
  // called after each operation of a sponge instance: (kind, instance id,
  // is_prng, data, length)
  void (*hook)(void*, kind_t, uint64_t, bool, const uint8_t*, size_t) = nullptr;
  void* arg = nullptr;
  // generator instances: replace the seed by (det_seed, counter)
  bool det = false;
  uint64_t det_seed = 0;
  uint64_t next_id = 0;
  // if not empty, the next generator instance hands out these bytes first
  std::vector<uint8_t> script;
  // if not empty, each hash instance squeezes these bytes first
  std::vector<uint8_t> xof;
  // absorb calls longer than this are only reported, not computed
  size_t absorb_limit = SIZE_MAX;
};

inline thread_local control_t ctl;
// reads and scripts of generators are handled by prng_tap.hpp
inline bool tap = false;

} // namespace env

namespace impl {

inline uint64_t rotl(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }

inline void keccak_f(uint64_t* a)
{
  static constexpr uint64_t RC[24] = {
    0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull,
    0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
    0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull,
    0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull,
    0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull,
    0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull
  };
  static constexpr int R[24] = { 1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44 };
  static constexpr int P[24] = { 10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1 };
  for (int r = 0; r < 24; r++) {
    uint64_t c[5];
    for (int i = 0; i < 5; i++) c[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
    for (int i = 0; i < 5; i++) {
      const uint64_t d = c[(i + 4) % 5] ^ rotl(c[(i + 1) % 5], 1);
      for (int j = 0; j < 25; j += 5) a[j + i] ^= d;
    }
    uint64_t t = a[1];
    for (int i = 0; i < 24; i++) {
      const uint64_t b = a[P[i]];
      a[P[i]] = rotl(t, R[i]);
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      uint64_t b[5];
      for (int i = 0; i < 5; i++) b[i] = a[j + i];
      for (int i = 0; i < 5; i++) a[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]);
    }
    a[0] ^= RC[r];
  }
}

struct sponge_t
{
  uint64_t s[25]{};
  size_t off = 0;
  bool squeezing = false;

  void absorb(const uint8_t* m, size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      s[off >> 3] ^= static_cast<uint64_t>(m[i]) << (8 * (off & 7));
      if (++off == rate / 8) { keccak_f(s); off = 0; }
    }
  }
  void finalize()
  {
    s[off >> 3] ^= 0x1full << (8 * (off & 7));
    s[16] ^= 0x8000000000000000ull;
    keccak_f(s);
    off = 0;
    squeezing = true;
  }
  void read(uint8_t* o, size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      if (off == rate / 8) { keccak_f(s); off = 0; }
      o[i] = static_cast<uint8_t>(s[off >> 3] >> (8 * (off & 7)));
      off++;
    }
  }
};

// bytes played before the real output
struct script_t
{
  std::vector<uint8_t> b;
  size_t pos = 0;
  size_t play(uint8_t* o, size_t n)
  {
    size_t k = b.size() - pos;
    k = k < n ? k : n;
    if (k) std::memcpy(o, b.data() + pos, k);
    pos += k;
    return k;
  }
};

inline void note(env::kind_t k, uint64_t id, bool prng, const uint8_t* p, size_t n)
{
  if (env::ctl.hook) env::ctl.hook(env::ctl.arg, k, id, prng, p, n);
}

} // namespace impl

template<const bool incremental = false>
struct shake256
{
private:
  impl::sponge_t st;
  impl::script_t sc;
  uint64_t id = 0;

public:
  // one-shot
  void hash(const uint8_t* const msg, const size_t mlen) noexcept
    requires(!incremental)
  {
    id = ++env::ctl.next_id;
    impl::note(env::SEED, id, true, msg, mlen);
    st = impl::sponge_t{};
    if (env::ctl.det) {
      uint8_t d[16];
      std::memcpy(d, &env::ctl.det_seed, 8);
      std::memcpy(d + 8, &id, 8);
      st.absorb(d, sizeof d);
    } else {
      st.absorb(msg, mlen);
    }
    st.finalize();
    sc.pos = 0;
    if (!env::tap) {
      sc.b = std::move(env::ctl.script);
      env::ctl.script.clear();
    }
  }

  // incremental
  void absorb(const uint8_t* const msg, const size_t mlen) noexcept
    requires(incremental)
  {
    if (!id) id = ++env::ctl.next_id;
    if (!st.squeezing && mlen <= env::ctl.absorb_limit) st.absorb(msg, mlen);
    impl::note(env::ABSORB, id, false, msg, mlen);
  }
  void finalize() noexcept
    requires(incremental)
  {
    if (!id) id = ++env::ctl.next_id;
    if (!st.squeezing) {
      st.finalize();
      sc.b = env::ctl.xof;
      sc.pos = 0;
    }
    impl::note(env::FINALIZE, id, false, nullptr, 0);
  }

  void read(uint8_t* const dig, const size_t dlen) noexcept
  {
    const size_t k = sc.play(dig, dlen);
    if (k < dlen) st.read(dig + k, dlen - k);
    if (incremental || !env::tap) impl::note(env::READ, id, !incremental, dig, dlen);
  }
};

} // namespace shake256
