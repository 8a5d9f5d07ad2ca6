#include "c07_wide.h"
#include "../pbt/engine.h"
#include "../pbt/values.h"
#include <sstream>
using namespace pbt;
namespace wide {
static std::string text(std::vector<std::unique_ptr<R>> const& v) {
  std::string o;
  for (auto& x : v) o += x ? strf("%d(%d,%d) ", x->id(), x->b, x->val()) : std::string("- ");
  return o;
}
static void test(Src& s, Ctx& c) {
  static Mk mk[kPer * kParts];
  static bool once = [] { fill0(mk); fill1(mk); fill2(mk); fill3(mk); return true; }();
  (void)once;
  std::vector<std::unique_ptr<R>> v;
  size_t n = 1 + s.draw(s.draw(3) ? 12 : 150);
  for (size_t i = 0; i < n; i++) {
    if (s.draw(12) == 11) { v.emplace_back(); continue; }
    if (s.draw(20) == 19) v.emplace_back(new R);
    else v.emplace_back(mk[s.draw(kPer * kParts)]());
    v.back()->b = int(s.draw(1000)); v.back()->val() = int(s.draw(1000));
  }
  std::string want = text(v);
  c.note(clip(want)); c.nontrivial(n >= 2);
  auto same = [&](std::vector<std::unique_ptr<R>> const& u, char const* how) { std::string g = text(u); PBT_CHECK(g == want, "%s: %s", how, firstDiff(want, g).c_str()); };
  auto r = checkpoint::serialize(v);
  PBT_CHECK(r->getSize() == checkpoint::getSize(v), "size query differs from the size packed");
  std::string bytes(r->getBuffer(), r->getSize());
  auto u = checkpoint::deserialize<std::vector<std::unique_ptr<R>>>(r->getBuffer());
  same(*u, "restored from memory");
  if (s.draw(2)) {
    std::stringstream ss;
    checkpoint::serializeToStream(v, static_cast<std::ostream&>(ss));
    auto w = checkpoint::deserializeFromStream<std::vector<std::unique_ptr<R>>>(static_cast<std::istream&>(ss));
    same(*w, "restored from a stream");
  }
  if (s.draw(2)) {
    std::vector<std::unique_ptr<R>> t;
    checkpoint::deserializeInPlace<std::vector<std::unique_ptr<R>>>(&bytes[0], &t);
    same(t, "restored in place into an empty vector");
  }
  same(v, "the source afterwards");
}
static int reg = (addUnit("hierarchy of 289 classes", test, 2), 0);
}
