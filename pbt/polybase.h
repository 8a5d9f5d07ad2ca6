// Shared by the registered class hierarchies (polyM.h, polyC.h, polyN.h, polyMix.h).
// Every layer has its own fields; out() prints the fields of each layer, base first; nm() names the dynamic type.
#pragma once
#include "zoo.h"

namespace poly {
using pbt::Src;
inline bool g_noChildren = false;     // generate polymorphic pointers as null (targets of in-place restores)
struct NoChildren { bool old = g_noChildren; NoChildren() { g_noChildren = true; } ~NoChildren() { g_noChildren = old; } };
}  // namespace poly

namespace pbt {
// The target of an in-place restore of a polymorphic pointer is null or has the same dynamic type (documented requirement).
template <typename B> std::unique_ptr<B> priorPtr(Src& s, std::unique_ptr<B> const& like) {
  if (!like || s.draw(3) == 0) { if (!like) return Gn<std::unique_ptr<B>>::gen(s); return nullptr; }
  poly::NoChildren nc;
  std::unique_ptr<B> r(static_cast<B*>(like->fresh()));
  Split sp(s, 4);
  r->fill(s);
  return r;
}
template <typename T> struct Prior { static T make(Src& s, T const&) { return Gn<T>::gen(s); } };
template <typename B> struct PolyPrior { static B make(Src& s, B const&) { poly::NoChildren nc; return Gn<B>::gen(s); } };
template <typename B> struct PolyVecPrior {
  static std::vector<std::unique_ptr<B>> make(Src& s, std::vector<std::unique_ptr<B>> const& like) {
    std::vector<std::unique_ptr<B>> v; size_t n = s.draw(like.size() + 4); Split sp(s, n + 1);
    for (size_t i = 0; i < n; i++) { sp.reset(); if (i < like.size()) v.push_back(priorPtr<B>(s, like[i])); else v.push_back(Gn<std::unique_ptr<B>>::gen(s)); }
    return v;
  }
};
#define POLY_VALUE(T)                                                                               \
  template <> struct Rp<poly::T> { static void put(std::string& o, poly::T const& t) { o += '<'; o += t.nm(); o += '>'; t.out(o); } }; \
  template <> struct Ft<poly::T> { static size_t foot(poly::T const& t) { return t.ft(); } };        \
  template <> struct Prior<poly::T> : PolyPrior<poly::T> {};
#define POLY_GEN(T) template <> struct Gn<poly::T> { static poly::T gen(Src& s) { poly::T t; t.fill(s); return t; } };
#define POLY_PTR(T, GEN)                                                                  \
  template <> struct IsPoly<poly::T> : std::true_type {};                                           \
  template <> struct Gn<std::unique_ptr<poly::T>> { static std::unique_ptr<poly::T> gen(Src& s) { return GEN; } }; \
  template <> struct Prior<std::unique_ptr<poly::T>> { static std::unique_ptr<poly::T> make(Src& s, std::unique_ptr<poly::T> const& like) { return priorPtr<poly::T>(s, like); } }; \
  template <> struct Prior<std::vector<std::unique_ptr<poly::T>>> : PolyVecPrior<poly::T> {};
}  // namespace pbt
