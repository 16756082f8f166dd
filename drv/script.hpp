#pragma once
// Bytes that make the signer draw chosen candidates.
#include "drv.hpp"
using Bytes = std::vector<uint8_t>;

// scripted candidates: frames of 9 + 1 + 1 bytes, one trial each
struct Script
{
  drv::Rng& rng;
  static constexpr double P[] = { 3024686241123004913666., 1564742784480091954050., 636254429462080897535., 199560484645026482916., 47667343854657281903., 8595902006365044063., 1163297957344668388., 117656387352093658., 8867391802663976. };
  void frame(Bytes& o, int v)
  {
    const int z0 = v > 0 ? v - 1 : -v, b = v > 0;
    // a draw between two table entries
    const double hi = z0 == 0 ? 4722366482869645213696. : P[z0 - 1], lo = P[z0];
    const double u = lo + (hi - lo) * (0.2 + 0.6 * rng.unit());
    unsigned __int128 w = static_cast<unsigned __int128>(u);
    for (int i = 0; i < 9; i++) o.push_back(static_cast<uint8_t>(w >> (8 * i)));
    o.push_back(static_cast<uint8_t>((rng.next() & 0xfe) | static_cast<unsigned>(b)));
    o.push_back(0);
  }
  // a normal variable
  double normal() { return std::sqrt(-2 * std::log(1 - rng.unit())) * std::cos(2 * M_PI * rng.unit()); }
  // random, or one of a few with structure
  Bytes salt()
  {
    Bytes o(40);
    rng.bytes(o.data(), 40);
    switch (rng.below(8)) {
      case 0: std::fill(o.begin(), o.end(), uint8_t(0)); break;
      case 1: std::fill(o.begin(), o.end(), uint8_t(0xff)); break;
      case 2: o[0] = 0; break;
      case 3: o[39] = 0; break;
      case 4: o[rng.below(40)] = 0; break;
      case 5: std::fill(o.begin() + 20, o.end(), uint8_t(0)); break;
      default: break;
    }
    return o;
  }
  // candidate of 2n samples: deviation d1 in the first half, d0 in the second
  void candidate(Bytes& o, size_t n, double d1, double d0)
  {
    for (size_t i = 0; i < 2 * n; i++) {
      const int v = static_cast<int>(std::lround(0.5 + (i < n ? d1 : d0) * normal()));
      frame(o, v > 7 ? 7 : v < -6 ? -6 : v);
    }
  }
};

