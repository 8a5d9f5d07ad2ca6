// C11: object lifetimes balance on every path. The engine repeats each case and compares the number of live heap allocations;
// AddressSanitizer reports double frees and uses after free.
#include "../pbt/ops.h"
#include "c11_common.h"
#include <new>
using namespace pbt;

static void paths(TypeOps const& t, Src& s, Ctx& c) {
  s.budget = 1 + s.draw(40);
  Obj v = genObj(t, s);
  std::string rep = v.rep(), bytes = serBytes(t, v.p);
  c.nontrivial(nontrivialValue(rep)); c.note(clip(rep, 200));
  TypeOps const& other = ops()[s.draw(ops().size())];
  bool poly = std::string(t.name).find("poly::") != std::string::npos;
  size_t n = 1 + s.draw(5);
  for (size_t k = 0; k < n; k++) {
    uint64_t op = s.draw(14);
    bool must = false, threw = false;
    char const* name = "";
    std::string cut = bytes.substr(0, s.draw(bytes.size()));
    try {
      switch (op) {
      case 0: name = "serialize, then restore the result"; { auto r = t.ser(v.p, nullptr); Obj u(t, t.desRet(std::move(r))); PBT_EQ(t, u.rep(), rep, name); } break;
      case 1: name = "serialize into the caller's buffer"; { Bytes b(bytes); auto r = t.ser(v.p, [&](size_t m) { PBT_CHECK(m == b.n, "size"); return b.p; }); PBT_CHECK(b.str() == bytes, "bytes of %s differ", t.name); } break;
      case 2: { name = "deserialize"; Bytes b(bytes); Obj u(t, t.des(b.p)); PBT_EQ(t, u.rep(), rep, name); break; }
      case 3: { name = "deserializeInPlace"; Bytes b(bytes); Obj u(t, t.prior(s, v.p)); t.desIn(b.p, u.p); PBT_EQ(t, u.rep(), rep, name); break; }
      case 4: { name = "a stream"; std::stringstream st; t.toStream(v.p, kBase, st); Obj u(t, t.fromStream(kBase, st)); PBT_EQ(t, u.rep(), rep, name); break; }
      case 5: { name = "a file"; TmpFile f("c11"); t.toFile(v.p, f.path); Obj u(t, t.fromFile(f.path)); PBT_EQ(t, u.rep(), rep, name); break; }
      case 6: { name = "in place from a file"; TmpFile f("c11"); t.toFile(v.p, f.path); Obj u(t, t.prior(s, v.p)); t.fromFileIn(f.path, u.p); PBT_EQ(t, u.rep(), rep, name); break; }
      case 7: { name = "reading a missing file"; must = true; TmpFile f("no"); Obj u(t, t.fromFile(f.path + "/x")); break; }
      case 8: { name = "writing to a directory"; must = true; t.toFile(v.p, scratchDir()); break; }
      case 9: { name = "a truncated stream"; must = true; std::istringstream is(cut); Obj u(t, t.fromStream(kBase, is)); break; }
      case 10: { name = "a truncated file"; must = true; TmpFile f("c11"); spit(f.path, cut); Obj u(t, t.fromFile(f.path)); break; }
      case 11: { name = "a truncated stream in place"; must = true; Obj u(t, t.prior(s, v.p)); std::istringstream is(cut); t.fromStreamIn(kBase, is, u.p); break; }
      case 12: { name = "another type"; must = *other.ti != *t.ti; Bytes b(bytes); Obj u(other, other.des(b.p)); break; }
      default: { name = "a throwing callback"; must = true; auto r = t.ser(v.p, [&](size_t) -> char* { throw std::runtime_error("callback"); }); break; }
      }
    } catch (Failure const&) { throw; } catch (std::runtime_error const&) { threw = true; }
    PBT_CHECK(threw == must, "%s of %s %s", name, t.name, threw ? "failed" : "did not fail");
    PBT_EQ(t, v.rep(), rep, "the source afterwards");
    c.label(name);
    (void)poly;
  }
}
extern "C" {
void* __real__Znwm(size_t); void* __real__Znam(size_t);
static void mayFail() { if (c11::g_armed && !c11::g_suspend && c11::g_allocs++ == c11::g_allocFailAt) throw std::bad_alloc(); }
void* __wrap__Znwm(size_t n) { mayFail(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { mayFail(); return __real__Znam(n); }
}
namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { paths(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
