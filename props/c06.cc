// C06: restoring in place replaces whatever the target held.
#include "../pbt/ops.h"
using namespace pbt;

static void inPlace(TypeOps const& o, Src& s, Ctx& c) {
  size_t rounds = 1 + s.draw(3);
  Obj target;
  for (size_t k = 0; k < rounds; k++) {
    Split sp(s, 2 * rounds);
    Obj v = genObj(o, s);
    std::string want = v.rep(), had;
    sp.reset();
    // The target is a fresh arbitrary value, or what the previous restore left there.
    if (!target.p || s.draw(2) || o.prior == nullptr || std::string(o.name).find("poly::") != std::string::npos) target = Obj(o, o.prior(s, v.p));
    else c.label("restored over an earlier restore");
    had = target.rep();
    std::string bytes = serBytes(o, v.p);
    Bytes b(bytes);
    void* addr = target.p;
    switch (s.draw(4)) {
    case 0: { std::istringstream is(bytes + "tail"); o.fromStreamIn(kBase, is, target.p); break; }
    case 1: { TmpFile f("c06"); spit(f.path, bytes); o.fromFileIn(f.path, target.p); break; }
    default: o.desIn(b.p, target.p);
    }
    PBT_CHECK(target.p == addr, "moved");
    PBT_CHECK(target.rep() == want, "%s restored in place over %s: %s", o.name, clip(had, 120).c_str(), firstDiff(want, target.rep()).c_str());
    PBT_CHECK(serBytes(o, target.p).size() >= 1 && v.rep() == want, "source changed");
    c.nontrivial(had != want && had.size() > 4);
    c.note(clip(had, 100) + " := " + clip(want, 100) + " ");
  }
}

namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { inPlace(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
