// A class holding members of several hierarchies, raw base pointers included.
#pragma once
#include "polyM.h"
#include "polyC.h"

namespace poly {
// A class mixing the hierarchies, raw base pointers included.
struct Mix {
  std::vector<std::unique_ptr<M0>> ms; std::list<std::unique_ptr<C0>> cs; std::map<int, std::unique_ptr<A0>> as; M0* raw = nullptr; std::unique_ptr<M1> mid;
  Mix() = default;
  Mix(Mix&& o) noexcept : ms(std::move(o.ms)), cs(std::move(o.cs)), as(std::move(o.as)), raw(o.raw), mid(std::move(o.mid)) { o.raw = nullptr; }
  Mix& operator=(Mix&& o) noexcept { ms = std::move(o.ms); cs = std::move(o.cs); as = std::move(o.as); std::swap(raw, o.raw); mid = std::move(o.mid); return *this; }
  ~Mix() { delete raw; }
  template <typename S> void serialize(S& s) {
    s | ms | cs | as;
    bool nr = raw == nullptr;
    s | nr;
    if (s.isUnpacking()) { delete raw; raw = nullptr; }
    if (!nr) { M0* t = raw; checkpoint::reconstructPointedToObjectIfNeeded(s, t); if (raw != t) raw = t; s | *raw; }
    s | mid;
  }
  static Mix pbt_gen(Src& s);
  void pbt_put(std::string& o) const;
  size_t pbt_foot() const;
};
}  // namespace poly
namespace pbt { template <> struct Prior<poly::Mix> : PolyPrior<poly::Mix> {}; }
namespace poly {
inline Mix Mix::pbt_gen(Src& s) {
  Mix m; size_t n = s.draw(6); pbt::Split sp(s, 8);
  for (size_t i = 0; i < n; i++) { sp.reset(); m.ms.push_back(genM(s)); }
  n = s.draw(4); for (size_t i = 0; i < n; i++) { sp.reset(); m.cs.push_back(genC(s)); }
  n = s.draw(4); for (size_t i = 0; i < n; i++) { sp.reset(); m.as[pbt::gen<int>(s)] = genA(s); }
  sp.reset(); m.raw = genM(s).release(); sp.reset(); m.mid = pbt::gen<std::unique_ptr<M1>>(s);
  return m;
}
inline void Mix::pbt_put(std::string& o) const { o += "Mix{"; pbt::put(o, ms); pbt::put(o, cs); pbt::put(o, as); if (raw) pbt::put(o, *raw); else o += '-'; pbt::put(o, mid); o += '}'; }
inline size_t Mix::pbt_foot() const { return pbt::foot(ms) + pbt::foot(cs) + pbt::foot(as) + 1 + (raw ? raw->ft() : 0) + pbt::foot(mid); }
}  // namespace poly
