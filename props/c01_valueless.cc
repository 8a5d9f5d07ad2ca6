// C01, variants that lost their value to an exception: refused when written (or restored as such), never restored as something else.
#include "../pbt/engine.h"
#include <checkpoint/checkpoint.h>
#include <array>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <unistd.h>
#include <variant>
#include <vector>
using namespace pbt;

namespace valueless {
struct Bomb {
  std::string s;
  Bomb() = default; Bomb(Bomb const&) = default; Bomb(Bomb&&) = default; Bomb& operator=(Bomb const&) = default; Bomb& operator=(Bomb&&) = default;
  explicit Bomb(int) { throw 1; }
  template <typename S> void serialize(S& z) { z | s; }
};
using V = std::variant<std::string, Bomb, std::vector<int>, std::unique_ptr<int>>;
using U = std::variant<Bomb, long>;
inline void gen(V& v, Src& s, bool& lost) {
  switch (s.draw(5)) {
  case 0: v = std::string(s.draw(30), 'a'); break;
  case 1: { Bomb b; b.s = std::string(s.draw(30), 'b'); v = std::move(b); break; }
  case 2: v = std::vector<int>(s.draw(9), int(s.draw(100))); break;
  case 3: v = s.draw(2) ? std::make_unique<int>(int(s.draw(100))) : nullptr; break;
  default: v = std::string(30, 'c'); try { v.emplace<1>(1); } catch (int) {} lost |= v.valueless_by_exception();
  }
}
inline void gen(U& v, Src& s, bool& lost) {
  if (s.draw(3)) v = long(s.draw(1000)); else { try { v.emplace<0>(1); } catch (int) {} lost |= v.valueless_by_exception(); }
}
inline void txt(std::string& o, V const& v) {
  if (v.valueless_by_exception()) { o += "lost;"; return; }
  o += strf("%zu:", v.index());
  if (auto p = std::get_if<0>(&v)) o += *p;
  if (auto p = std::get_if<1>(&v)) o += p->s;
  if (auto p = std::get_if<2>(&v)) for (int i : *p) o += strf("%d,", i);
  if (auto p = std::get_if<3>(&v)) o += *p ? strf("%d", **p) : "null";
  o += ';';
}
inline void txt(std::string& o, U const& v) { if (v.valueless_by_exception()) o += "lost;"; else o += v.index() ? strf("%ld;", std::get<1>(v)) : "bomb" + std::get<0>(v).s + ";"; }
struct Holder {
  V v; std::array<U, 2> a; std::vector<V> w; std::map<int, U> m; std::optional<U> o; std::unique_ptr<V> p; std::pair<int, U> q{1, 2L};
  template <typename S> void serialize(S& s) { s | v | a | w | m | o | p | q; }
};
inline void gen(Holder& h, Src& s, bool& lost) {
  // few of them, so that complete objects are common
  auto v = [&](auto& x) { if (s.draw(3) == 0) gen(x, s, lost); };
  v(h.v); for (auto& x : h.a) v(x);
  h.w.resize(s.draw(4)); for (auto& x : h.w) v(x);
  for (size_t i = 0, n = s.draw(3); i < n; i++) v(h.m[int(i)]);
  if (s.draw(2)) { h.o.emplace(4L); v(*h.o); }
  if (s.draw(2)) { h.p = std::make_unique<V>(); v(*h.p); }
  v(h.q.second);
}
inline void txt(std::string& o, Holder const& h) {
  txt(o, h.v); for (auto& x : h.a) txt(o, x); o += '|'; for (auto& x : h.w) txt(o, x); o += '|'; for (auto& x : h.m) { o += strf("%d=", x.first); txt(o, x.second); }
  o += '|'; if (h.o) txt(o, *h.o); o += '|'; if (h.p) txt(o, *h.p); o += '|'; txt(o, h.q.second);
}
template <typename T> std::string text(T const& t) { std::string o; txt(o, t); return o; }

template <typename T> void unit(Src& s, Ctx& c) {
  T t, target; bool lost = false, ignore = false;
  gen(t, s, lost); gen(target, s, ignore);
  std::string want = text(t), f = scratchDir() + "/valueless";
  c.note(want); c.nontrivial(); c.label(lost ? "a variant without a value" : "all variants have a value"); if (ignore) c.label("target with a variant without a value");
  int med = int(s.draw(3));
  bool in = s.draw(2), refused = false;
  T fresh; T* got = &fresh; std::unique_ptr<T> made;
  PBT_CHECK(checkpoint::getMemoryFootprint(t) >= sizeof(T), "footprint");
  try {
    if (s.draw(2)) checkpoint::getSize(t);
    std::unique_ptr<checkpoint::SerializedInfo> r; std::stringstream ss;
    if (med == 0) r = checkpoint::serialize(t);
    else if (med == 1) checkpoint::serializeToStream(t, static_cast<std::ostream&>(ss));
    else checkpoint::serializeToFile(t, f);
    try {
      if (in) {
        got = &target;
        if (med == 0) checkpoint::deserializeInPlace<T>(r->getBuffer(), &target);
        else if (med == 1) checkpoint::deserializeInPlaceFromStream<T>(static_cast<std::istream&>(ss), &target);
        else checkpoint::deserializeInPlaceFromFile<T>(f, &target);
      } else {
        if (med == 0) made = checkpoint::deserialize<T>(r->getBuffer());
        else if (med == 1) made = checkpoint::deserializeFromStream<T>(static_cast<std::istream&>(ss));
        else made = checkpoint::deserializeFromFile<T>(f);
        got = made.get();
      }
    } catch (std::exception const& e) { PBT_CHECK(lost, "restoring failed: %s", e.what()); refused = true; }
  } catch (std::exception const& e) { PBT_CHECK(lost, "writing failed: %s", e.what()); refused = true; }
  remove(f.c_str());
  if (!refused) PBT_CHECK(text(*got) == want, "restored %s: %s", lost ? "an object with a variant without a value" : "an object", firstDiff(want, text(*got)).c_str());
  PBT_CHECK(text(t) == want, "the source changed: %s", firstDiff(want, text(t)).c_str());
}
}  // namespace valueless

void registerValueless() {
  addUnit("variants that may have no value", valueless::unit<valueless::V>);
  addUnit("small variants that may have no value", valueless::unit<valueless::U>);
  addUnit("holders of variants that may have no value", valueless::unit<valueless::Holder>, 3);
}
