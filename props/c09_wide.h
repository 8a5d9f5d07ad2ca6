#pragma once
namespace wide9 {
constexpr int kPer = 80, kParts = 4;
using Ser = void (*)(int, void (*)(char const*, unsigned long, void*), void*);
using Des = int (*)(char*);
void fill0(Des*); void fill1(Des*); void fill2(Des*); void fill3(Des*);
void wr0(Ser*); void wr1(Ser*); void wr2(Ser*); void wr3(Ser*);
}
