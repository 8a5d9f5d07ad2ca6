// C03: serializing observes without changing; results are deterministic; buffers can be restored repeatedly.
#include "../pbt/ops.h"
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
using namespace pbt;

// Memory that can be sealed: objects restored while g_arenaOn is set live in it, down to their last allocation.
namespace {
constexpr size_t kArena = size_t(1) << 29;
char* g_arena = nullptr; size_t g_used = 0, g_live = 0; bool g_arenaOn = false;
inline bool inArena(void* p) { return g_arena && p >= g_arena && p < g_arena + kArena; }
void* take(size_t n, size_t al) {
  if (g_arenaOn) {
    size_t at = (g_used + al - 1) / al * al;
    if (at + n <= kArena) { g_used = at + n + 1; g_live++; __asan_unpoison_memory_region(g_arena + at, n); return g_arena + at; }
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void give(void* p) { if (inArena(p)) g_live--; else free(p); }
}
void* operator new(size_t n) { return take(n, 16); }
void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
namespace {
struct Sealed {
  TypeOps const& o; void* p = nullptr; size_t used = 0; std::string bytes;
  Sealed(TypeOps const& o, std::string& from) : o(o) {
    if (!g_arena) {
      void* m = mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      PBT_CHECK(m != MAP_FAILED, "mmap");
      g_arena = static_cast<char*>(m);
    }
    if (g_live == 0) g_used = 0;
    g_arenaOn = true;
    try { p = o.des(&from[0]); } catch (...) { g_arenaOn = false; throw; }
    g_arenaOn = false;
    bytes = serBytes(o, p);
    used = (g_used + 4095) / 4096 * 4096;
    mprotect(g_arena, used, PROT_READ);
  }
  ~Sealed() { mprotect(g_arena, used, PROT_READ | PROT_WRITE); o.del(p); }
};
}

static std::string raw(TypeOps const& o, void* p) { g_rawOrder = true; std::string r; o.put(r, p); g_rawOrder = false; return r; }

// Any other use of the library, on other objects and types.
static void otherUse(Src& s) {
  auto const& all = ops();
  auto const& o = all[s.draw(all.size())];
  uint64_t saved = s.budget; s.budget = 8;
  Obj x = genObj(o, s);
  s.budget = saved;
  switch (s.draw(5)) {
  case 0: o.getSize(x.p); break;
  case 1: { auto r = o.ser(x.p, nullptr); Obj y(o, o.des(r->getBuffer())); break; }
  case 2: { std::stringstream ss; o.toStream(x.p, kBase, ss); Obj y(o, o.fromStream(kBase, ss)); break; }
  case 3: o.footprint(x.p, 0); break;
  default: {
    auto r = o.ser(x.p, nullptr);
    auto const& w = all[s.draw(all.size())];        // a refused restore
    if (*w.ti != *o.ti) { try { Obj y(w, w.des(r->getBuffer())); } catch (std::exception const&) {} }
  }
  }
}

static void observe(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  if (s.chance(1, 4)) { c.label("changed since it was last observed"); serBytes(o, v.p); o.footprint(v.p, 0); o.remake(v.p, s); }
  std::string want = raw(o, v.p);
  c.nontrivial(nontrivialValue(want)); c.note(clip(want));
  std::string first;
  size_t nops = 2 + s.draw(5);
  for (size_t k = 0; k < nops; k++) {
    std::string got; char const* what;
    switch (s.draw(6)) {
    case 0: what = "getSize"; o.getSize(v.p); break;
    case 1: what = "getMemoryFootprint"; o.footprint(v.p, s.draw(100)); break;
    case 2: { what = "serializeToFile"; TmpFile f("c03"); o.toFile(v.p, f.path); got = slurp(f.path); break; }
    case 3: { what = "serializeToStream"; std::ostringstream ss; o.toStream(v.p, kBase, ss); got = ss.str(); break; }
    default: what = "serialize"; got = serBytes(o, v.p);
    }
    std::string now = raw(o, v.p);
    PBT_CHECK(now == want, "%s changed the source object (%s): %s", what, o.name, firstDiff(want, now).c_str());
    if (!got.empty()) {
      if (first.empty()) first = got;
      else PBT_CHECK(got == first, "%s of the same unmodified %s gave different bytes: %s", what, o.name, firstDiff(first, got).c_str());
    }
    if (s.chance(1, 3)) { otherUse(s); c.label("other use in between"); }
  }
  if (first.empty()) first = serBytes(o, v.p);
  // the same buffer restored any number of times
  std::string rep = v.rep();
  Bytes b(first);
  size_t times = 2 + s.draw(2);
  std::vector<Obj> rs;
  for (size_t k = 0; k < times; k++) {
    rs.emplace_back(o, o.des(b.p));
    PBT_CHECK(memcmp(b.p, first.data(), b.n) == 0, "deserializing %s modified the input buffer", o.name);
    if (s.chance(1, 3)) otherUse(s);
  }
  for (auto& r : rs) PBT_EQ(o, r.rep(), rep, "a value restored from the same buffer");
  // independent: restoring one in place or destroying it leaves the others alone
  size_t gone = s.draw(rs.size());
  o.del(rs[gone].p); rs[gone].p = nullptr;
  for (size_t k = 0; k < rs.size(); k++) if (k != gone) PBT_EQ(o, rs[k].rep(), rep, "a restored value after its sibling was destroyed");
  if (s.draw(2)) {
    // the same operations on an object that lies in memory which cannot be written, with all it owns
    c.label("source in read-only memory");
    std::string copy = first;
    size_t foot = rs.empty() ? 0 : o.footprint(rs[gone ? 0 : rs.size() - 1].p, 0), size = o.getSize(v.p);
    { std::ostringstream ss; o.toStream(v.p, kBase, ss); TmpFile f("c03"); o.toFile(v.p, f.path); }
    Sealed z(o, copy);
    PBT_CHECK(o.getSize(z.p) == size, "size of a %s in read-only memory", o.name);
    std::string got = serBytes(o, z.p);
    PBT_CHECK(got == z.bytes, "bytes of a restored %s in read-only memory: %s", o.name, firstDiff(z.bytes, got).c_str());
    PBT_CHECK(o.footprint(z.p, 0) == foot, "footprint of a restored %s in read-only memory differs from its sibling's", o.name);
    { std::ostringstream ss; o.toStream(z.p, kBase, ss); PBT_CHECK(ss.str() == z.bytes, "stream of a %s in read-only memory", o.name); }
    if (s.draw(4) == 0) { TmpFile f("c03"); o.toFile(z.p, f.path); PBT_CHECK(slurp(f.path) == z.bytes, "file of a %s in read-only memory", o.name); }
  }
  std::string again = serBytes(o, v.p);
  PBT_CHECK(again == first, "serializing the same unmodified %s later gave different bytes: %s", o.name, firstDiff(first, again).c_str());
  PBT_CHECK(raw(o, v.p) == want, "restoring changed the source object (%s)", o.name);
}

namespace c03 { void units(); }
namespace pbt {
void registerUnits() { c03::units(); for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { observe(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
