// C01: deserialize(serialize(v)) is a new, separately owned object equal to v.
#include "../pbt/ops.h"
using namespace pbt;

static void roundTrip(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  std::string want = v.rep();
  c.nontrivial(nontrivialValue(want)); c.note(clip(want));
  uint64_t how = s.draw(4);
  c.label(how == 3 ? "restored from the returned buffer object" : "restored from bytes");
  auto ret = o.ser(v.p, nullptr);
  PBT_CHECK(ret && ret->getBuffer(), "serialize of %s returned no buffer", o.name);
  Obj r;
  if (how == 3) r = Obj(o, o.desRet(std::move(ret)));
  else r = Obj(o, o.des(ret->getBuffer()));
  PBT_EQ(o, r.rep(), want, "value restored");
  PBT_CHECK(o.capOK(v.p, r.p), "%s: a restored vector has less capacity than the original", o.name);
  PBT_CHECK(r.p != v.p, "%s: the restored object is the original", o.name);
  // separately owned: each survives the other and the buffer
  if (how == 1) {
    ret.reset();
    o.del(v.p); v.p = nullptr;
    PBT_EQ(o, r.rep(), want, "value restored, after the original was destroyed");
  } else if (how == 2) {
    o.del(r.p); r.p = nullptr;
    PBT_EQ(o, v.rep(), want, "original after the restored object was destroyed");
    Obj r2(o, o.des(ret->getBuffer()));
    PBT_EQ(o, r2.rep(), want, "value restored a second time");
  }
  if (s.chance(1, 4)) {           // a second generation
    c.label("two generations");
    Obj& src = r.p ? r : v;
    std::string bytes = serBytes(o, src.p);
    Bytes b(bytes);
    Obj r3(o, o.des(b.p));
    PBT_EQ(o, r3.rep(), want, "value restored from a checkpoint of the restored object");
  }
}

void registerValueless();
void registerWide() __attribute__((weak));      // linked into one configuration only
namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { roundTrip(o, s, c); }); if (registerWide) registerWide(); registerValueless(); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
