// digests of the SHAKE256 stand-in, for comparison with an independent one
#include "shake256.hpp"
#include <cstdio>
int main()
{
  for (size_t n : { 0, 1, 7, 8, 40, 72, 134, 135, 136, 137, 271, 272, 273, 1000, 5000 }) {
    std::vector<uint8_t> m(n), o(n % 3 == 0 ? 500 : 136);
    for (size_t j = 0; j < n; j++) m[j] = static_cast<uint8_t>(7 * j + n);
    shake256::shake256<true> h{};
    h.absorb(m.data(), n / 3);
    h.absorb(m.data() + n / 3, n - n / 3);
    h.finalize();
    h.read(o.data(), 5);
    h.read(o.data() + 5, o.size() - 5);
    shake256::shake256<false> g{};
    std::vector<uint8_t> p(o.size());
    g.hash(m.data(), n);
    g.read(p.data(), p.size());
    if (o != p) return 1;
    std::printf("%zu:%zu:", n, o.size());
    for (uint8_t b : o) std::printf("%02x", b);
    std::printf("\n");
  }
}
