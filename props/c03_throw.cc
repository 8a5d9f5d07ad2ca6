// C03, second family: an operation on the source that fails half way (user code throws) leaves the source as it was.
#include "../pbt/engine.h"
#include "../pbt/values.h"
#include <checkpoint/checkpoint.h>
#include <sstream>
using namespace pbt;

namespace c03 {
struct Boom : std::exception {};
inline long g_event = 0, g_failAt = -1;
inline void event() { if (g_failAt >= 0 && g_event++ == g_failAt) throw Boom{}; }
struct Thr {
  int v = 0; std::string s;
  template <typename S> void serialize(S& x) { event(); x | v; event(); x | s; }
  static Thr pbt_gen(Src& r) { Thr t; t.v = int(r.draw(50)); t.s = pbt::gen<std::string>(r); return t; }
  void pbt_put(std::string& o) const { o += '<'; pbt::put(o, v); o += ','; pbt::put(o, s); o += '>'; }
  bool operator<(Thr const& r) const { return std::tie(v, s) < std::tie(r.v, r.s); }
  bool operator==(Thr const& r) const { return v == r.v && s == r.s; }
};
struct Hash { size_t operator()(Thr const& t) const { return size_t(t.v) % 7; } };
// several containers in one class
struct Mix {
  std::queue<Thr> q; std::vector<Thr> v; std::queue<std::list<Thr>> t; std::map<int, std::queue<Thr>> m; std::unique_ptr<Thr> p;
  template <typename S> void serialize(S& s) { s | q | v; event(); s | t | m | p; }
  static Mix pbt_gen(Src& s) { Mix r; r.q = pbt::gen<std::queue<Thr>>(s); r.v = pbt::gen<std::vector<Thr>>(s); r.t = pbt::gen<std::queue<std::list<Thr>>>(s); r.m = pbt::gen<std::map<int, std::queue<Thr>>>(s); r.p = pbt::gen<std::unique_ptr<Thr>>(s); return r; }
  void pbt_put(std::string& o) const { pbt::put(o, q); pbt::put(o, v); pbt::put(o, t); pbt::put(o, m); pbt::put(o, p); }
};

template <typename H> std::string raw(H const& h) { g_rawOrder = true; std::string o; pbt::put(o, h); g_rawOrder = false; return o; }

template <typename H> void test(Src& s, Ctx& c) {
  s.budget = 4 + s.draw(30);
  g_failAt = -1;
  H v = pbt::gen<H>(s);
  std::string want = raw(v);
  c.note(clip(want));
  std::string bytes;
  { auto r = checkpoint::serialize<H>(v); bytes.assign(r->getBuffer(), r->getSize()); }
  PBT_CHECK(raw(v) == want, "serialize changed the source object: %s", firstDiff(want, raw(v)).c_str());
  uint64_t n = 1 + s.draw(4);
  for (uint64_t k = 0; k < n; k++) {
    uint64_t op = s.draw(6);
    char const* name = "";
    auto run = [&] {
      switch (op) {
      case 0: name = "getSize"; checkpoint::getSize<H>(v); break;
      case 1: name = "getMemoryFootprint"; checkpoint::getMemoryFootprint<H>(v); break;
      case 2: { name = "serializeToStream"; std::ostringstream os; checkpoint::serializeToStream<H>(v, static_cast<std::ostream&>(os)); break; }
      case 3: { name = "serializeToFile"; std::string f = scratchDir() + "/c03t"; struct R { std::string& f; ~R() { remove(f.c_str()); } } r{f}; checkpoint::serializeToFile<H>(v, f); break; }
      case 4: { name = "serialize with a callback that throws"; auto r = checkpoint::serialize<H>(v, [](std::size_t) -> char* { throw Boom{}; }); break; }
      default: name = "serialize"; { auto r = checkpoint::serialize<H>(v); }
      }
    };
    g_event = 0; g_failAt = 1L << 40;
    try { run(); } catch (Boom const&) {}
    long total = g_event;
    PBT_CHECK(raw(v) == want, "%s changed the source object: %s", name, firstDiff(want, raw(v)).c_str());
    for (int i = 0; i < 4 && total > 0; i++) {
      long at = long(s.draw(uint64_t(total)));
      g_event = 0; g_failAt = at;
      bool threw = false;
      try { run(); } catch (Boom const&) { threw = true; }
      g_failAt = -1;
      PBT_CHECK(threw, "%s swallowed the exception user code threw at event %ld of %ld", name, at, total);
      PBT_CHECK(raw(v) == want, "%s failing (user code throws at event %ld of %ld) changed the source object: %s", name, at, total, firstDiff(want, raw(v)).c_str());
      c.nontrivial();
      c.label(std::string(name) + " failing");
    }
    g_failAt = -1;
  }
  auto r = checkpoint::serialize<H>(v);
  std::string again(r->getBuffer(), r->getSize());
  PBT_CHECK(again == bytes, "after failed operations the same unmodified object serializes to different bytes: %s", firstDiff(bytes, again).c_str());
}
template <typename H> void unit(char const* n) { addUnit(std::string("failing operations on ") + n, [](Src& s, Ctx& c) { test<H>(s, c); }, 2); }
}  // namespace c03

namespace c03 {
void units() {
#define U(...) unit<__VA_ARGS__>(#__VA_ARGS__)
  U(std::queue<Thr>); U(std::vector<Thr>); U(std::list<Thr>); U(std::set<Thr>);
  unit<std::unordered_set<Thr, Hash>>("std::unordered_set<Thr>"); unit<std::unordered_multiset<Thr, Hash>>("std::unordered_multiset<Thr>");
  U(std::deque<std::queue<Thr>>); U(std::queue<std::vector<Thr>>);
  U(std::unordered_map<int, Thr>); U(std::optional<std::queue<Thr>>); U(std::variant<int, std::queue<Thr>, Thr>); U(std::tuple<Thr, std::queue<Thr>>);
  U(std::pair<Thr, std::queue<Thr>>); U(std::array<Thr, 3>); U(std::unique_ptr<std::queue<Thr>>); U(Mix); U(std::vector<Mix>); U(std::queue<std::deque<Thr>>);
  U(std::multimap<int, Thr>);
#undef U
}
}
