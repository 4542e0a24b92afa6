#ifndef VERIF_STUB_TRNG_N01
#define VERIF_STUB_TRNG_N01
#include <cmath>
namespace trng {
template <typename T = double>
class normal_dist {
    T mu_, sigma_;

  public:
    normal_dist(T mu, T sigma) : mu_(mu), sigma_(sigma) {}
    template <typename R>
    T operator()(R &r) {
        const T u = (static_cast<T>(r() >> 11) + 0.5) * (1.0 / 9007199254740992.0);
        const T v = (static_cast<T>(r() >> 11) + 0.5) * (1.0 / 9007199254740992.0);
        return mu_ + sigma_ * std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
};
} // namespace trng
#endif
