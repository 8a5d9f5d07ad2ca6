// CRTP-style hierarchy: C0 > {C1 > C2 > C3, C1b}.
#pragma once
#define POLY_C_CLASSES
#include "polybase.h"

namespace poly {
// ---------------------------------------------------------------- CRTP style
struct C0 : checkpoint::SerializableBase<C0> {
  long a = 2;
  template <typename S> void serialize(S& s) { s | a; }
  virtual void fill(Src& s) { a = pbt::gen<long>(s); }
  virtual void out(std::string& o) const { o += "C0("; pbt::put(o, a); o += ')'; }
  virtual size_t ft() const { return sizeof a; }
  virtual char const* nm() const { return "C0"; }
  virtual C0* fresh() const { return new C0; }
};
struct C1 : checkpoint::SerializableDerived<C1, C0> {
  std::optional<std::string> b;
  template <typename S> void serialize(S& s) { s | b; }
  void fill(Src& s) override { C0::fill(s); b = pbt::gen<std::optional<std::string>>(s); }
  void out(std::string& o) const override { C0::out(o); o += "C1("; pbt::put(o, b); o += ')'; }
  size_t ft() const override { return C0::ft() + pbt::foot(b); }
  char const* nm() const override { return "C1"; }
  C0* fresh() const override { return new C1; }
};
struct C2 : checkpoint::SerializableDerived<C2, C1> {
  std::unordered_map<int, int> c;
  template <typename S> void serialize(S& s) { s | c; }
  void fill(Src& s) override { C1::fill(s); c = pbt::gen<std::unordered_map<int, int>>(s); }
  void out(std::string& o) const override { C1::out(o); o += "C2("; pbt::put(o, c); o += ')'; }
  size_t ft() const override { return C1::ft() + pbt::foot(c); }
  char const* nm() const override { return "C2"; }
  C0* fresh() const override { return new C2; }
};
struct C1b : checkpoint::SerializableDerived<C1b, C0> {
  std::vector<bool> f;
  static C1b& reconstruct(void* buf) { return *new (buf) C1b(1); }
  explicit C1b(int) {}
  template <typename S> void serialize(S& s) { s | f; }
  void fill(Src& s) override { C0::fill(s); f = pbt::gen<std::vector<bool>>(s); }
  void out(std::string& o) const override { C0::out(o); o += "C1b("; pbt::put(o, f); o += ')'; }
  size_t ft() const override { return C0::ft() + pbt::foot(f); }
  char const* nm() const override { return "C1b"; }
  C0* fresh() const override { return new C1b(1); }
};
struct C3 : checkpoint::SerializableDerived<C3, C2> {
  std::unique_ptr<C0> in;
  template <typename S> void serialize(S& s) { s | in; }
  void fill(Src& s) override;
  void out(std::string& o) const override { C2::out(o); o += "C3("; if (in) { o += in->nm(); in->out(o); } else o += '-'; o += ')'; }
  size_t ft() const override { return C2::ft() + sizeof in + (in ? in->ft() : 0); }
  char const* nm() const override { return "C3"; }
  C0* fresh() const override { return new C3; }
};
inline std::unique_ptr<C0> makeC(uint64_t k) {
  switch (k) {
  case 0: return std::make_unique<C0>();
  case 1: return std::make_unique<C1>();
  case 2: return std::make_unique<C2>();
  case 3: return std::make_unique<C1b>(1);
  default: return std::make_unique<C3>();
  }
}
inline std::unique_ptr<C0> genC(Src& s, unsigned kinds = 5) {
  if (g_noChildren) return nullptr;
  if (s.draw(6) == 0) return nullptr;
  auto r = makeC(s.draw(s.budget < 4 ? 3 : kinds));
  pbt::Split sp(s, 4);
  r->fill(s);
  return r;
}
inline void C3::fill(Src& s) { C2::fill(s); in = genC(s); }

}  // namespace poly

namespace pbt {
POLY_VALUE(C0) POLY_VALUE(C1) POLY_VALUE(C2) POLY_VALUE(C1b) POLY_VALUE(C3)
POLY_GEN(C0) POLY_GEN(C1) POLY_GEN(C2) POLY_GEN(C3)
template <> struct Gn<poly::C1b> { static poly::C1b gen(Src& s) { poly::C1b t(1); t.fill(s); return t; } };
POLY_PTR(C0, poly::genC(s))
}  // namespace pbt
