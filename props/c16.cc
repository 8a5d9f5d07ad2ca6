// C16: restoring depends only on the bytes, wherever they are; the result refers to neither the buffer nor the original.
#include "../pbt/ops.h"
#include <sys/mman.h>
using namespace pbt;

// Memory of whole pages between two inaccessible ones.
struct Pages {
  char* base; size_t n;        // n accessible bytes at base
  explicit Pages(size_t want) {
    n = (want + 4095) / 4096 * 4096; if (!n) n = 4096;
    char* m = (char*)mmap(nullptr, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) abort();
    base = m + 4096;
    mprotect(base, n, PROT_READ | PROT_WRITE);
  }
  void readOnly() { mprotect(base, n, PROT_READ); }
  void writable() { mprotect(base, n, PROT_READ | PROT_WRITE); }
  ~Pages() { munmap(base - 4096, n + 8192); }
};

static void anywhere(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  std::string want = v.rep();
  c.nontrivial(nontrivialValue(want)); c.note(clip(want));
  std::string bytes = serBytes(o, v.p);
  size_t n = bytes.size();
  Obj other; if (s.draw(3) == 0) { Split sp(s, 2); other = Obj(o, o.prior(s, v.p)); }
  std::unique_ptr<Pages> pg; std::unique_ptr<char[]> hp; char* at; char const* where;
  size_t shift = s.draw(65);
  switch (s.draw(3)) {
  case 0: where = "at the end of a page"; pg = std::make_unique<Pages>(n); at = pg->base + pg->n - n; break;      // ends where reading is impossible
  case 1: where = "at the start of a page"; pg = std::make_unique<Pages>(n); at = pg->base; break;                // begins right after it
  default: where = "in the heap"; hp.reset(new char[n + shift]); at = hp.get() + shift;
  }
  c.label(std::string(where)); c.label("alignment " + std::to_string((uintptr_t)at % 8));
  memcpy(at, bytes.data(), n);
  if (pg) pg->readOnly();
  if (s.draw(2)) { o.del(v.p); v.p = nullptr; c.label("original destroyed first"); }
  Obj r;
  struct Mem { void* p = nullptr; ~Mem() { free(p); } } mem;
  bool storage = false;
  if (other.p) { o.desIn(at, other.p); r = std::move(other); }
  else if (s.draw(4) == 0) {
    if (posix_memalign(&mem.p, std::max(o.align, sizeof(void*)), o.size)) return;
    r = Obj(o, o.desObj(at, (char*)mem.p)); storage = true;
  } else r = Obj(o, o.des(at));
  struct Rel { Obj& r; TypeOps const& o; bool st; ~Rel() { if (st && r.p) { o.destroy(r.p); r.p = nullptr; } } } rel{r, o, storage};
  PBT_CHECK(memcmp(at, bytes.data(), n) == 0, "restoring %s wrote to its buffer %s", o.name, where);
  PBT_CHECK(r.rep() == want, "%s restored from a buffer %s (address %% 64 = %u): %s", o.name, where, unsigned((uintptr_t)at % 64), firstDiff(want, r.rep()).c_str());
  // the buffer is overwritten and freed, the original destroyed
  if (pg) { pg->writable(); memset(pg->base, 0xee, pg->n); pg.reset(); } else { memset(hp.get(), 0xee, n + shift); hp.reset(); }
  if (v.p) { o.del(v.p); v.p = nullptr; }
  std::string now = r.rep();
  PBT_CHECK(now == want, "%s changed after the buffer it was restored from was overwritten and freed: %s", o.name, firstDiff(want, now).c_str());
  // it can be checkpointed again without the first buffer
  std::string b2 = serBytes(o, r.p);
  Bytes bb(b2);
  Obj r2(o, o.des(bb.p));
  PBT_EQ(o, r2.rep(), want, "value restored from a checkpoint of the relocated restore");
}

namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { anywhere(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
