// Macro-style hierarchy whose layers are serialized by free functions: N0 > N1 > N2, N0 > N1b.
#pragma once
#define POLY_N_CLASSES
#include "polybase.h"

namespace poly {
struct N0 {
  checkpoint_virtual_serialize_root()
  unsigned a = 4;
  virtual ~N0() = default;
  virtual void fill(Src& s) { a = pbt::gen<unsigned>(s); }
  virtual void out(std::string& o) const { o += "N0("; pbt::put(o, a); o += ')'; }
  virtual size_t ft() const { return sizeof a; }
  virtual char const* nm() const { return "N0"; }
  virtual N0* fresh() const { return new N0; }
};
struct N1 : N0 {
  checkpoint_virtual_serialize_derived_from(N0)
  std::vector<std::string> b;
  void fill(Src& s) override { N0::fill(s); b = pbt::gen<std::vector<std::string>>(s); }
  void out(std::string& o) const override { N0::out(o); o += "N1("; pbt::put(o, b); o += ')'; }
  size_t ft() const override { return N0::ft() + pbt::foot(b); }
  char const* nm() const override { return "N1"; }
  N0* fresh() const override { return new N1; }
};
struct N2 : N1 {
  checkpoint_virtual_serialize_derived_from(N1)
  double c = 1; std::unique_ptr<N0> in;
  explicit N2(int) {}
  explicit N2(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  void fill(Src& s) override;
  void out(std::string& o) const override { N1::out(o); o += "N2("; pbt::put(o, c); if (in) { o += in->nm(); in->out(o); } else o += '-'; o += ')'; }
  size_t ft() const override { return N1::ft() + sizeof c + sizeof in + (in ? in->ft() : 0); }
  char const* nm() const override { return "N2"; }
  N0* fresh() const override { return new N2(0); }
};
struct N1b : N0 {
  checkpoint_virtual_serialize_derived_from(N0)
  std::map<std::string, double> m;
  void fill(Src& s) override { N0::fill(s); m = pbt::gen<std::map<std::string, double>>(s); }
  void out(std::string& o) const override { N0::out(o); o += "N1b("; pbt::put(o, m); o += ')'; }
  size_t ft() const override { return N0::ft() + pbt::foot(m); }
  char const* nm() const override { return "N1b"; }
  N0* fresh() const override { return new N1b; }
};
template <typename S> void serialize(S& s, N0& x) { s | x.a; }
template <typename S> void serialize(S& s, N1& x) { s | x.b; }
template <typename S> void serialize(S& s, N2& x) { s | x.c | x.in; }
template <typename S> void serialize(S& s, N1b& x) { s | x.m; }
inline std::unique_ptr<N0> genN(Src& s) {
  if (g_noChildren || s.draw(6) == 0) return nullptr;
  std::unique_ptr<N0> r;
  switch (s.draw(s.budget < 4 ? 2 : 4)) { case 0: r = std::make_unique<N0>(); break; case 1: r = std::make_unique<N1>(); break; case 2: r = std::make_unique<N1b>(); break; default: r = std::make_unique<N2>(0); }
  pbt::Split sp(s, 4);
  r->fill(s);
  return r;
}
inline void N2::fill(Src& s) { N1::fill(s); c = pbt::gen<double>(s); in = genN(s); }
}  // namespace poly

namespace pbt {
POLY_VALUE(N0) POLY_VALUE(N1) POLY_VALUE(N2) POLY_VALUE(N1b)
POLY_GEN(N0) POLY_GEN(N1) POLY_GEN(N1b)
template <> struct Gn<poly::N2> { static poly::N2 gen(Src& s) { poly::N2 t(0); t.fill(s); return t; } };
POLY_PTR(N0, poly::genN(s))
}  // namespace pbt
