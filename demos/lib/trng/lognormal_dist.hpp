#ifndef VERIF_STUB_TRNG_LN
#define VERIF_STUB_TRNG_LN
#include "normal_dist.hpp"
#include <cmath>
namespace trng {
template <typename T = double>
class lognormal_dist {
    normal_dist<T> n_;

  public:
    lognormal_dist(T mu, T sigma) : n_(mu, sigma) {}
    template <typename R>
    T operator()(R &r) { return std::exp(n_(r)); }
};
} // namespace trng
#endif
