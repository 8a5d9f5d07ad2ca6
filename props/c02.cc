// C02: one size, one byte sequence: size query, serialized buffer, caller's buffer, file and stream.
#include "../pbt/ops.h"
using namespace pbt;

static void oneSize(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  if (s.chance(1, 3)) {      // sized or serialized with another value before
    c.label("changed since it was last sized");
    if (s.draw(2)) o.getSize(v.p); else o.ser(v.p, nullptr);
    o.remake(v.p, s);
  }
  std::string want = v.rep();
  c.nontrivial(nontrivialValue(want)); c.note(clip(want));
  size_t n = 0;
  checkpoint::SerializedReturnType ret{nullptr};
  for (bool sizeFirst : {s.draw(2) == 0, true}) {
    if (sizeFirst) n = o.getSize(v.p);
    if (!ret) ret = o.ser(v.p, nullptr);
  }
  PBT_CHECK(ret->getSize() == n, "%s: size query %zu, serialized buffer %zu", o.name, n, ret->getSize());
  std::string bytes(ret->getBuffer(), n);
  // twice into a caller's buffer of exactly that size, filled with different patterns: every byte is written, none outside
  for (int pat : {0x00, 0xff}) {
    size_t asked = ~size_t(0); char* mem = nullptr; size_t front = s.draw(9);
    auto r2 = o.ser(v.p, [&](std::size_t k) { asked = k; mem = (char*)malloc(front + k); memset(mem, pat, front + k); return mem + front; });
    struct Free { char* m; ~Free() { free(m); } } fr{mem};
    PBT_CHECK(asked == n, "%s: size query %zu, caller's buffer of %zu requested", o.name, n, asked);
    PBT_CHECK(r2->getSize() == n && r2->getBuffer() == mem + front, "%s: caller's buffer reported as %zu bytes instead of %zu, or at another address", o.name, r2->getSize(), n);
    for (size_t i = 0; i < front; i++) PBT_CHECK(mem[i] == (char)pat, "%s: byte before the caller's buffer written", o.name);
    PBT_EQ(o, std::string(mem + front, n), bytes, "bytes in the caller's buffer");
  }
  {
    TmpFile f("c02");
    if (s.draw(2)) spit(f.path, std::string(s.draw(3 * n + 1), 'x'));
    o.toFile(v.p, f.path);
    std::string d = slurp(f.path);
    PBT_CHECK(d.size() == n, "%s: size query %zu, file %zu", o.name, n, d.size());
    PBT_EQ(o, d, bytes, "bytes in the file");
  }
  {
    std::stringstream ss;
    std::string pre(s.draw(4), 'p');
    ss << pre;
    o.toStream(v.p, kBase, ss);
    PBT_CHECK(ss.good(), "%s: stream not good after writing", o.name);
    std::string d = ss.str();
    PBT_CHECK(d.size() == pre.size() + n, "%s: size query %zu, stream received %zu", o.name, n, d.size() - pre.size());
    PBT_EQ(o, d.substr(pre.size()), bytes, "bytes in the stream");
  }
}

namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { oneSize(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
