// Macro-style hierarchies: M0 > {M1 > M2 > M3 > M4, M1b > M2b} and the abstract A0 > {A1, A2}.
#pragma once
#define POLY_M_CLASSES
#include "polybase.h"

namespace poly {
// ---------------------------------------------------------------- macro style
struct M0 {
  checkpoint_virtual_serialize_root()
  int a = 1;
  M0() = default;
  virtual ~M0() = default;
  template <typename S> void serialize(S& s) { s | a; }
  virtual void fill(Src& s) { a = pbt::gen<int>(s); }
  virtual void out(std::string& o) const { o += "M0("; pbt::put(o, a); o += ')'; }
  virtual size_t ft() const { return pbt::foot(a); }
  virtual char const* nm() const { return "M0"; }
  virtual M0* fresh() const { return new M0; }
};
struct M1 : M0 {
  checkpoint_virtual_serialize_derived_from(M0)
  std::string b = "b";
  template <typename S> void serialize(S& s) { s | b; }
  void fill(Src& s) override { M0::fill(s); b = pbt::gen<std::string>(s); }
  void out(std::string& o) const override { M0::out(o); o += "M1("; pbt::put(o, b); o += ')'; }
  size_t ft() const override { return M0::ft() + pbt::foot(b); }
  char const* nm() const override { return "M1"; }
  M0* fresh() const override { return new M1; }
};
struct M2 : M1 {
  checkpoint_virtual_serialize_derived_from(M1)
  std::vector<int> c{3}; double d = 0;
  template <typename S> void serialize(S& s) { s | c | d; }
  void fill(Src& s) override { M1::fill(s); c = pbt::gen<std::vector<int>>(s); d = pbt::gen<double>(s); }
  void out(std::string& o) const override { M1::out(o); o += "M2("; pbt::put(o, c); pbt::put(o, d); o += ')'; }
  size_t ft() const override { return M1::ft() + pbt::foot(c) + pbt::foot(d); }
  char const* nm() const override { return "M2"; }
  M0* fresh() const override { return new M2; }
};
struct M3 : M2 {                                  // no default constructor
  checkpoint_virtual_serialize_derived_from(M2)
  uint8_t e;
  explicit M3(uint8_t x) : e(x) {}
  explicit M3(checkpoint::SERIALIZE_CONSTRUCT_TAG) : e(77) {}
  template <typename S> void serialize(S& s) { s | e; }
  void fill(Src& s) override { M2::fill(s); e = pbt::gen<uint8_t>(s); }
  void out(std::string& o) const override { M2::out(o); o += "M3("; pbt::put(o, e); o += ')'; }
  size_t ft() const override { return M2::ft() + 1; }
  char const* nm() const override { return "M3"; }
  M0* fresh() const override { return new M3(uint8_t(0)); }
};
struct M1b : M0 {                                 // sibling of M1
  checkpoint_virtual_serialize_derived_from(M0)
  std::map<int, std::string> m; std::unique_ptr<M0> child;
  template <typename S> void serialize(S& s) { s | m; s | child; }
  void fill(Src& s) override;
  void out(std::string& o) const override { M0::out(o); o += "M1b("; pbt::put(o, m); if (child) { o += child->nm(); child->out(o); } else o += '-'; o += ')'; }
  size_t ft() const override { return M0::ft() + pbt::foot(m) + sizeof child + (child ? child->ft() : 0); }
  char const* nm() const override { return "M1b"; }
  M0* fresh() const override { return new M1b; }
};
struct M2b : M1b {                                // adds no state
  checkpoint_virtual_serialize_derived_from(M1b)
  template <typename S> void serialize(S&) {}
  void out(std::string& o) const override { M1b::out(o); o += "M2b()"; }
  char const* nm() const override { return "M2b"; }
  M0* fresh() const override { return new M2b; }
};
struct M4 : M3 {
  checkpoint_virtual_serialize_derived_from(M3)
  std::vector<std::unique_ptr<M0>> kids;
  explicit M4() : M3(0) {}
  template <typename S> void serialize(S& s) { s | kids; }
  void fill(Src& s) override;
  void out(std::string& o) const override { M3::out(o); o += "M4("; for (auto& k : kids) { if (k) { o += k->nm(); k->out(o); } else o += '-'; o += ','; } o += ')'; }
  size_t ft() const override { size_t f = M3::ft() + sizeof kids + sizeof(void*) * (kids.capacity() - kids.size()); for (auto& k : kids) f += sizeof k + (k ? k->ft() : 0); return f; }
  char const* nm() const override { return "M4"; }
  M0* fresh() const override { return new M4; }
};
inline std::unique_ptr<M0> makeM(uint64_t k) {
  switch (k) {
  case 0: return std::make_unique<M0>();
  case 1: return std::make_unique<M1>();
  case 2: return std::make_unique<M2>();
  case 3: return std::make_unique<M3>(uint8_t(0));
  case 4: return std::make_unique<M1b>();
  case 5: return std::make_unique<M2b>();
  default: return std::make_unique<M4>();
  }
}
inline std::unique_ptr<M0> genM(Src& s, unsigned kinds = 7) {
  if (g_noChildren) return nullptr;
  if (s.draw(6) == 0) return nullptr;
  uint64_t k = s.draw(s.budget < 4 ? 4 : kinds);
  auto r = makeM(k);
  pbt::Split sp(s, 4);
  r->fill(s);
  return r;
}
inline void M1b::fill(Src& s) { M0::fill(s); m = pbt::gen<std::map<int, std::string>>(s); child = genM(s); }
inline void M4::fill(Src& s) { M3::fill(s); size_t n = s.draw(4); pbt::Split sp(s, n + 1); for (size_t i = 0; i < n; i++) { sp.reset(); kids.push_back(genM(s)); } }

inline std::unique_ptr<M1> genM1(Src& s) {
  if (g_noChildren || s.draw(5) == 0) return nullptr;
  std::unique_ptr<M1> r;
  switch (s.draw(4)) { case 0: r = std::make_unique<M1>(); break; case 1: r = std::make_unique<M2>(); break; case 2: r = std::make_unique<M3>(uint8_t(1)); break; default: r = std::make_unique<M4>(); }
  pbt::Split sp(s, 4);
  r->fill(s);
  return r;
}

#ifndef POLY_NO_A
// ---------------------------------------------------------------- abstract root
struct A0 {
  checkpoint_virtual_serialize_root()
  short z = 3;
  virtual ~A0() = default;
  virtual int area() const = 0;
  template <typename S> void serialize(S& s) { s | z; }
  virtual void fill(Src& s) { z = pbt::gen<short>(s); }
  virtual void out(std::string& o) const { o += "A0("; pbt::put(o, z); o += ')'; }
  virtual size_t ft() const { return 2; }
  virtual char const* nm() const = 0;
  virtual A0* fresh() const = 0;
};
struct A1 : A0 {
  checkpoint_virtual_serialize_derived_from(A0)
  int w = 1;
  int area() const override { return w; }
  template <typename S> void serialize(S& s) { s | w; }
  void fill(Src& s) override { A0::fill(s); w = pbt::gen<int>(s); }
  void out(std::string& o) const override { A0::out(o); o += "A1("; pbt::put(o, w); o += ')'; }
  size_t ft() const override { return A0::ft() + 4; }
  char const* nm() const override { return "A1"; }
  A0* fresh() const override { return new A1; }
};
struct A2 : A0 {
  checkpoint_virtual_serialize_derived_from(A0)
  std::shared_ptr<M0> other;       // another hierarchy inside, through a shared pointer
  int area() const override { return 0; }
  template <typename S> void serialize(S& s) {
    bool null = other == nullptr;
    s | null;
    if (null) { if (s.isUnpacking()) other = nullptr; return; }
    M0* t = s.isUnpacking() ? nullptr : other.get();
    checkpoint::reconstructPointedToObjectIfNeeded(s, t);
    if (s.isUnpacking()) other = std::shared_ptr<M0>(t);
    s | *other;
  }
  void fill(Src& s) override { A0::fill(s); other = genM(s); }
  void out(std::string& o) const override { A0::out(o); o += "A2("; if (other) { o += other->nm(); other->out(o); } else o += '-'; o += ')'; }
  size_t ft() const override { return A0::ft() + 1 + (other ? other->ft() : 0); }
  char const* nm() const override { return "A2"; }
  A0* fresh() const override { return new A2; }
};
inline std::unique_ptr<A0> genA(Src& s) {
  if (g_noChildren) return nullptr;
  if (s.draw(6) == 0) return nullptr;
  std::unique_ptr<A0> r;
  if (s.draw(2)) r = std::make_unique<A2>(); else r = std::make_unique<A1>();
  r->fill(s);
  return r;
}

#endif
}  // namespace poly

namespace pbt {
POLY_VALUE(M0) POLY_VALUE(M1) POLY_VALUE(M2) POLY_VALUE(M3) POLY_VALUE(M1b) POLY_VALUE(M2b) POLY_VALUE(M4)
POLY_GEN(M0) POLY_GEN(M1) POLY_GEN(M2) POLY_GEN(M1b) POLY_GEN(M2b) POLY_GEN(M4)
template <> struct Gn<poly::M3> { static poly::M3 gen(Src& s) { poly::M3 t(uint8_t(0)); t.fill(s); return t; } };
POLY_PTR(M0, poly::genM(s))
POLY_PTR(M1, poly::genM1(s))
#ifndef POLY_NO_A
POLY_VALUE(A0) POLY_VALUE(A1) POLY_VALUE(A2) POLY_GEN(A1) POLY_GEN(A2)
POLY_PTR(A0, poly::genA(s))
#endif
}  // namespace pbt
