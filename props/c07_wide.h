// C07: one registered hierarchy with several hundred classes (type indices beyond any small integer).
#pragma once
#include <checkpoint/checkpoint.h>
#include <memory>
#include <vector>
namespace wide {
struct R {
  checkpoint_virtual_serialize_root()
  int b = 0;
  virtual ~R() = default;
  template <typename S> void serialize(S& s) { s | b; }
  virtual int id() const { return -1; }
  virtual int& val() { return b; }
};
template <int N> struct D : R {
  checkpoint_virtual_serialize_derived_from(R)
  int v = 0;
  template <typename S> void serialize(S& s) { s | v; }
  int id() const override { return N; }
  int& val() override { return v; }
};
constexpr int kPer = 72, kParts = 4;
using Mk = R* (*)();
void fill0(Mk*); void fill1(Mk*); void fill2(Mk*); void fill3(Mk*);
}
