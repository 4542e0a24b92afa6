#ifndef VERIF_STUB_TRNG_U01
#define VERIF_STUB_TRNG_U01
namespace trng {
template <typename T = double>
class uniform01_dist {
  public:
    template <typename R>
    T operator()(R &r) { return static_cast<T>(r() >> 11) * (1.0 / 9007199254740992.0); }
};
} // namespace trng
#endif
