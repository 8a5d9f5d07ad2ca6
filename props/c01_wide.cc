// C01: types with many parts. A variant of hundreds of alternatives, a tuple of dozens of members, chains of hundreds of pointees.
#include "../pbt/engine.h"
#include "../pbt/values.h"
#include <checkpoint/checkpoint.h>
#include <memory>
#include <sstream>
#include <tuple>
#include <variant>
using namespace pbt;

namespace {
// distinct types, mostly byte-copyable ones: they compile fast
template <int I> struct AltBytes { using isByteCopyable = std::true_type; int x = I; void put(std::string& o) const { o += strf("%d:%d", I, x); } void fill(Src& s) { x = gen<int>(s); } };
template <int I> struct AltOwns { std::string x; template <typename S> void serialize(S& s) { s | x; } void put(std::string& o) const { o += strf("%d:", I); pbt::put(o, x); } void fill(Src& s) { x = gen<std::string>(s); } };
template <int I> using Alternative = std::conditional_t<I % 16 == 15 || I == 256, AltOwns<I>, AltBytes<I>>;
constexpr int kWide = 262, kLong = 40;
template <typename Seq> struct Mk;
template <int... I> struct Mk<std::integer_sequence<int, I...>> {
  using V = std::variant<Alternative<I>...>;
  using T = std::tuple<Alternative<I>...>;
  static void emplace(V& v, size_t i) {
    using F = void (*)(V&);
    static F const f[] = {[](V& x) { x.template emplace<I>(); }...};
    f[i](v);
  }
};
using W = Mk<std::make_integer_sequence<int, kWide>>;
using L = Mk<std::make_integer_sequence<int, kLong>>;

std::string text(W::V const& v) { std::string o = strf("V%zu ", v.index()); std::visit([&](auto const& a) { a.put(o); }, v); return o; }
std::string text(L::T const& t) { std::string o; std::apply([&](auto const&... a) { ((a.put(o), o += ','), ...); }, t); return o; }
struct Node { int v = 0; std::unique_ptr<Node> next; template <typename S> void serialize(S& s) { s | v | next; } };
std::string text(Node const& n) { std::string o; for (Node const* p = &n; p; p = p->next.get()) o += strf("%d,", p->v); return o; }

template <typename T> void check(T& v, Src& s, Ctx& c, T& other) {
  std::string want = text(v);
  c.note(want.substr(0, 200)); c.nontrivial();
  auto r = checkpoint::serialize<T>(v);
  PBT_CHECK(checkpoint::getSize<T>(v) == r->getSize(), "the sizes differ");
  std::string got;
  switch (s.draw(2)) {
  case 0: { auto u = checkpoint::deserialize<T>(r->getBuffer()); got = text(*u); break; }
  default: checkpoint::deserializeInPlace<T>(r->getBuffer(), &other); got = text(other);
  }
  PBT_CHECK(got == want, "restored: %s", firstDiff(want, got).c_str());
  PBT_CHECK(text(v) == want, "the source: %s", firstDiff(want, text(v)).c_str());
}
void variants(Src& s, Ctx& c) {
  W::V v, o;
  for (W::V* x : {&v, &o}) {
    size_t i = s.draw(3) ? s.draw(kWide) : s.pick({126ull, 127ull, 128ull, 129ull, 254ull, 255ull, 256ull, 257ull, 261ull});
    W::emplace(*x, i);
    std::visit([&](auto& a) { a.fill(s); }, *x);
  }
  if (v.index() > 127) c.label("alternative beyond 127");
  if (v.index() > 255) c.label("alternative beyond 255");
  check(v, s, c, o);
}
void tuples(Src& s, Ctx& c) {
  L::T v, o;
  std::apply([&](auto&... a) { (a.fill(s), ...); }, v);
  if (s.draw(2)) std::apply([&](auto&... a) { (a.fill(s), ...); }, o);
  check(v, s, c, o);
}
std::unique_ptr<Node> chain(Src& s, size_t n) { std::unique_ptr<Node> h; uint64_t b = s.draw(1000); while (n--) { auto x = std::make_unique<Node>(); x->v = int(b + n); x->next = std::move(h); h = std::move(x); } return h; }
void chains(Src& s, Ctx& c) {
  Node v, o; v.v = -1; o.v = -2;
  size_t n = s.draw(4) ? s.draw(300) : s.pick({254ull, 255ull, 256ull, 257ull, 600ull});
  v.next = chain(s, n); o.next = chain(s, s.draw(40));
  if (n > 255) c.label("chain beyond 255");
  check(v, s, c, o);
}
}  // namespace
void registerWide() {
  addUnit("variant of 262 alternatives", variants, 2);
  addUnit("tuple of 40 members", tuples);
  addUnit("chain of pointees", chains);
}
