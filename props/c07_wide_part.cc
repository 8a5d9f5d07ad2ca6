#include "c07_wide.h"
namespace wide {
template <int N> R* make() { return new D<N>; }
template <int... I> static void fillAll(Mk* d, std::integer_sequence<int, I...>) { ((d[PART_NO * kPer + I] = make<PART_NO * kPer + I>), ...); }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(fill, PART_NO)(Mk* d) { fillAll(d, std::make_integer_sequence<int, kPer>{}); }
}
