#pragma once
// Observation and scripting of the generator at its own interface, whatever
// it does inside: prng::prng_t becomes a wrapper around the library's.
#include "shake256.hpp"
#include <random>
#define prng_t prng_inner_t
#include "prng.hpp"
#undef prng_t

namespace shake256::env {
inline const bool tap_set = tap = true;
}

namespace prng {
struct prng_t
{
private:
  prng_inner_t inner;
  shake256::impl::script_t sc;
  uint64_t id;

public:
  prng_t()
  {
    id = ++shake256::env::ctl.next_id;
    sc.b = std::move(shake256::env::ctl.script);
    shake256::env::ctl.script.clear();
    shake256::impl::note(shake256::env::NEW, id, true, nullptr, 0);
  }
  inline void read(uint8_t* const bytes, const size_t len)
  {
    const size_t k = sc.play(bytes, len);
    if (k < len) inner.read(bytes + k, len - k);
    shake256::impl::note(shake256::env::READ, id, true, bytes, len);
  }
};
}
