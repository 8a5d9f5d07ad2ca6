#include "c09_wide.h"
#include <checkpoint/checkpoint.h>
namespace wide9 {
// The types of the parts differ although they are named the same.
namespace { template <int N> struct T { int v = 0; template <typename S> void serialize(S& s) { s | v; } }; }
namespace {
template <int N> int des(char* b) { return checkpoint::deserialize<T<N>>(b)->v; }
template <int N> void ser(int v, void (*f)(char const*, unsigned long, void*), void* x) { T<N> t; t.v = v; auto r = checkpoint::serialize(t); f(r->getBuffer(), r->getSize(), x); }
}
template <int... I> static void fillAll(Des* d, std::integer_sequence<int, I...>) { ((d[PART_NO * kPer + I] = des<I>), ...); }
// every tenth type can also be written
template <int... I> static void wrAll(Ser* d, std::integer_sequence<int, I...>) { ((d[PART_NO * kPer + 10 * I] = ser<10 * I>), ...); }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(fill, PART_NO)(Des* d) { fillAll(d, std::make_integer_sequence<int, kPer>{}); }
void CAT(wr, PART_NO)(Ser* d) { wrAll(d, std::make_integer_sequence<int, kPer / 10>{}); }
}
