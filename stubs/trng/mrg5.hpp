// Stand-in for TRNG 4's trng::mrg5 (the library is not installed here): same interface, counter-based
// generator, leap-frog split. Only used to parse /repo's TRNG-dependent sources and to run demonstrations.
#ifndef VERIF_STUB_TRNG_MRG5
#define VERIF_STUB_TRNG_MRG5
#include <cstdint>
namespace trng {
class mrg5 {
    std::uint64_t key = 0, pos = 0, stride = 1;

  public:
    using result_type = std::uint64_t;
    mrg5() = default;
    explicit mrg5(unsigned long s) { seed(s); }
    void seed(unsigned long s) { key = s; pos = 0; stride = 1; }
    void split(unsigned int p, unsigned int s) { pos += s * stride; stride *= p; }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~result_type(0); }
    result_type operator()() {
        std::uint64_t z = pos * 0x9E3779B97F4A7C15ULL + key * 0xD1342543DE82EF95ULL + 0x2545F4914F6CDD1DULL;
        pos += stride;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
};
} // namespace trng
#endif
