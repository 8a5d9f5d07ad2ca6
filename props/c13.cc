// C13: the memory footprint accounts for everything reachable, as defined per type (the Ft models), and changes nothing.
#include "../pbt/ops.h"
using namespace pbt;

static void footCase(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  std::string rep = v.rep();
  c.nontrivial(nontrivialValue(rep)); c.note(clip(rep, 200));
  size_t want = std::max(o.footModel(v.p), o.size);
  size_t got = o.footprint(v.p, 0);
  PBT_CHECK(got == want, "footprint of %s is %zu, expected %zu (value %s)", o.name, got, want, clip(rep, 500).c_str());
  for (int k = 0; k < 2; k++) {
    size_t off = k ? size_t(s.draw(0)) : s.pick<uint64_t>({0, 1, 7, o.size, 4096, ~0ull});
    size_t g2 = o.footprint(v.p, off);
    PBT_CHECK(g2 == off + want, "footprint of %s with offset %zu is %zu, expected %zu", o.name, off, g2, off + want);
  }
  if (s.draw(3) == 0) {    // other objects in between do not matter
    auto& t = ops()[s.draw(ops().size())];
    Split sp(s, 8);
    Obj u = genObj(t, s);
    size_t w = std::max(t.footModel(u.p), t.size), g = t.footprint(u.p, 0);
    PBT_CHECK(g == w, "footprint of %s is %zu, expected %zu (value %s)", t.name, g, w, clip(u.rep(), 500).c_str());
    PBT_CHECK(o.footprint(v.p, 0) == want, "footprint of %s changed when repeated", o.name);
  }
  PBT_EQ(o, v.rep(), rep, "object after its footprint was computed");
  std::string b1 = serBytes(o, v.p); o.footprint(v.p, 3);
  PBT_CHECK(serBytes(o, v.p) == b1, "the checkpoint of %s changed after its footprint was computed", o.name);
}
std::vector<Unit>& footUnits() { static std::vector<Unit> u; return u; }
namespace pbt {
void registerUnits() {
  for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { footCase(o, s, c); });
  for (auto& u : footUnits()) addUnit(u.name, u.fn, 4);
}
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
