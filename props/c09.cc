// C09: reading a checkpoint as a different type is rejected with a serialization error.
#include "script_common.h"
using namespace pbt;

static void wrongType(TypeOps const& w, Src& s, Ctx& c) {
  auto const& all = ops();
  uint64_t keep = s.budget; s.budget = 1 + s.draw(12);
  Obj v = genObj(w, s);
  s.budget = keep;
  std::string bytes = serBytes(w, v.p), rep = v.rep();
  // several readers per written value
  size_t n = 1 + s.draw(6);
  for (size_t k = 0; k < n; k++) {
    TypeOps const& r = all[s.draw(all.size())];
    bool same = *r.ti == *w.ti;
    uint64_t m = s.draw(6);
    std::string got;
    c.note(std::string(w.name) + " as " + r.name + "; ");
    Obj target;
    std::string had;
    if (m == 3 || m == 4) {
      uint64_t kb = s.budget; s.budget = 4;
      target = same ? Obj(r, r.prior(s, v.p)) : genObj(r, s);
      s.budget = kb;
    }
    char const* how = "";
    try {
      switch (m) {
      case 0: { how = "from memory"; Bytes b(bytes); Obj u(r, r.des(b.p)); if (same) PBT_EQ(r, u.rep(), rep, "value restored as its own type"); break; }
      case 1: { how = "from a stream"; std::istringstream is(bytes); Obj u(r, r.fromStream(kBase, is)); if (same) PBT_EQ(r, u.rep(), rep, "value restored as its own type"); break; }
      case 2: { how = "from a file"; TmpFile f("c09"); spit(f.path, bytes); Obj u(r, r.fromFile(f.path)); if (same) PBT_EQ(r, u.rep(), rep, "value restored as its own type"); break; }
      case 3: { how = "in place"; Bytes b(bytes); r.desIn(b.p, target.p); if (same) PBT_EQ(r, target.rep(), rep, "value restored as its own type"); break; }
      case 4: { how = "in place from a stream"; std::istringstream is(bytes); r.fromStreamIn(kBase, is, target.p); if (same) PBT_EQ(r, target.rep(), rep, "value restored as its own type"); break; }
      default: {
        how = "in the caller's storage";
        Bytes b(bytes);
        struct Mem { void* p = nullptr; ~Mem() { free(p); } } mem;
        if (posix_memalign(&mem.p, std::max(r.align, sizeof(void*)), r.size)) return;
        void* u = r.desObj(b.p, (char*)mem.p);
        std::string rr; r.put(rr, u); r.destroy(u);
        if (same) PBT_EQ(r, rr, rep, "value restored as its own type");
      }
      }
    } catch (checkpoint::dispatch::serialization_error const&) {
      got = "serialization_error";
    } catch (Failure const&) {
      throw;
    } catch (std::exception const& e) {
      got = std::string("another exception: ") + e.what();
    }
    if (same) { PBT_CHECK(got.empty(), "%s refused as its own type %s: %s", w.name, how, got.c_str()); c.label("same type"); }
    else {
      PBT_CHECK(got == "serialization_error", "a checkpoint of %s read as %s %s was not rejected with a serialization error but: %s", w.name, r.name, how, got.empty() ? "accepted" : got.c_str());
      c.label(std::string("rejected ") + how);
      c.nontrivial();
      // a refused restore leaves an in-place target usable
      if (target.p) {
        uint64_t kb = s.budget; s.budget = 3;
        Obj x = genObj(r, s);
        s.budget = kb;
        std::string xb = serBytes(r, x.p);
        if (std::string(r.name).find("poly::") == std::string::npos) { Bytes b(xb); r.desIn(b.p, target.p); PBT_EQ(r, target.rep(), x.rep(), "target restored after a refused restore"); }
      }
    }
  }
}

namespace wide9 { void units(); }
namespace pbt {
void registerUnits() {
  wide9::units();
  for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { wrongType(o, s, c); });
#ifdef SERIALIZATION_ERROR_CHECKING
  addUnit("nested field of another type", [](Src& s, Ctx& c) { scriptUnpack(s, c, true); }, 20);
#endif
}
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
