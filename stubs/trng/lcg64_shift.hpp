#ifndef VERIF_STUB_TRNG_LCG
#define VERIF_STUB_TRNG_LCG
#include "mrg5.hpp"
namespace trng { using lcg64_shift = mrg5; }
#endif
