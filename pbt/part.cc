// One part of the type list: -DPART=k; -DPART=100+k takes the generated list types_rand_k.h.
#include "types.h"
#if PART == 10
#include "polyM.h"
#elif PART == 11
#include "polyC.h"
#include "polyN.h"
#elif PART == 12
#define POLY_NO_C
#include "polyMix.h"
#endif
#include "ops.h"
#if PART >= 100
#include "types_rand.h"
#endif
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

namespace pbt {
template <> struct Padded<long double> : std::true_type {};
template <> struct Padded<zoo::ByBase> : std::true_type {};
template <> struct Padded<zoo::ByUsing> : std::true_type {};
template <> struct Padded<zoo::ByNon> : std::true_type {};
template <> struct Padded<zoo::ByMacro> : std::true_type {};
template <> struct Padded<zoo::ByAligned> : std::true_type {};
template <> struct Padded<zoo::ByTrait> : std::true_type {};
template <> struct Padded<std::vector<zoo::ByUsing>> : std::true_type {};
template <> struct Padded<std::variant<int, double>> : std::true_type {};
}
namespace tl {
#ifdef ONLY_TYPE
#define TYPES_HERE(X) X(ONLY_TYPE)
#else
#define TYPES_HERE PBT_CAT(TYPES_, PART)
#endif
#define X(...) pbt::ops().push_back(pbt::makeOps<__VA_ARGS__, false>(#__VA_ARGS__));
#define Y(...) pbt::ops().push_back(pbt::makeOps<__VA_ARGS__, true>(#__VA_ARGS__));
static int reg = [] { TYPES_HERE(X) return 0; }();
}
extern "C" int PBT_CAT(pbt_part_, PART)() { return tl::reg; }
