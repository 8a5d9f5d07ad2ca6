// C17: buffers and storage supplied by the caller are honoured exactly.
#include "../pbt/ops.h"
using namespace pbt;

static void callerBuffer(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  std::string want = v.rep();
  c.nontrivial(nontrivialValue(want)); c.note(clip(want));
  size_t n = o.getSize(v.p);
  std::string bytes = serBytes(o, v.p);
  unsigned calls = 0; size_t asked = 0;
  uint64_t kind = s.draw(5);
  size_t front = s.draw(17);
  if (kind == 0) {                                          // the callback declines
    auto r = o.ser(v.p, [&](size_t k) -> char* { calls++; asked = k; return nullptr; });
    PBT_CHECK(calls == 1 && asked == n, "%s: declining callback invoked %u times, last with %zu instead of %zu", o.name, calls, asked, n);
    PBT_CHECK(r && r->getBuffer() && r->getSize() == n, "%s: no buffer after the callback declined", o.name);
    PBT_EQ(o, std::string(r->getBuffer(), n), bytes, "bytes after the callback declined");
    c.label("callback declines");
  } else if (kind == 1) {                                   // the callback throws
    struct Mine {};
    bool seen = false;
    try { auto r = o.ser(v.p, [&](size_t) -> char* { calls++; throw Mine{}; }); } catch (Mine const&) { seen = true; }
    PBT_CHECK(seen && calls == 1, "%s: exception of the callback lost, or callback invoked %u times", o.name, calls);
    PBT_EQ(o, v.rep(), want, "source after the callback threw");
    c.label("callback throws");
  } else {
    struct Mem { char* p = nullptr; ~Mem() { free(p); } } mem;
    size_t back = s.draw(3) ? 0 : s.draw(64);               // the caller may provide more than asked for
    char* given = nullptr;
    auto r = o.ser(v.p, [&](size_t k) -> char* {
      calls++; asked = k;
      if (mem.p) return nullptr;
      mem.p = (char*)malloc(front + k + back); memset(mem.p, 0x5c, front + k + back);
      return given = mem.p + front;
    });
    PBT_CHECK(calls == 1 && asked == n, "%s: callback invoked %u times, last with %zu instead of %zu", o.name, calls, asked, n);
    PBT_CHECK(r->getBuffer() == given && r->getSize() == n, "%s: caller's buffer %p of %zu bytes reported as %p of %zu", o.name, (void*)given, n, (void*)r->getBuffer(), r->getSize());
    for (size_t i = 0; i < front; i++) PBT_CHECK(mem.p[i] == 0x5c, "%s: byte %zu before the caller's buffer written", o.name, front - i);
    for (size_t i = 0; i < back; i++) PBT_CHECK(mem.p[front + n + i] == 0x5c, "%s: byte %zu after the caller's buffer written", o.name, i);
    PBT_EQ(o, std::string(given, n), bytes, "bytes in the caller's buffer");
    if (s.draw(2)) {
      Obj u(o, o.desRet(std::move(r)));                      // consuming the result does not free it either
      PBT_EQ(o, u.rep(), want, "value restored from the caller's buffer");
    }
    r.reset();
    PBT_CHECK(std::string(given, n) == bytes, "%s: caller's buffer changed or freed with the result object", o.name);
    memset(mem.p, 1, front + n + back);                      // still ours (the sanitizer watches)
    c.label("callback provides");
  }
}

static void callerStorage(TypeOps const& o, Src& s, Ctx& c) {
  size_t front = s.draw(3) * std::max<size_t>(o.align, 16), back = s.draw(40);
  struct Mem { void* p = nullptr; ~Mem() { free(p); } } mem;
  if (posix_memalign(&mem.p, std::max<size_t>(o.align, 16), front + o.size + back)) return;
  char* m = (char*)mem.p; char* at = m + front;
  int pat = s.pick({0x00, 0xff, 0x5c});
  memset(m, pat, front + o.size + back);
  size_t uses = 1 + s.draw(3);
  for (size_t k = 0; k < uses; k++) {
    Split sp(s, uses);
    Obj v = genObj(o, s);
    std::string want = v.rep();
    c.nontrivial(nontrivialValue(want)); c.note(clip(want, 120) + " ");
    std::string bytes = serBytes(o, v.p);
    if (s.draw(4) == 0) {                                    // a restore that fails must neither free nor keep the storage
      auto const& w = ops()[s.draw(ops().size())];
      if (*w.ti != *o.ti) {
        uint64_t kb = s.budget; s.budget = 3;
        Obj x = genObj(w, s);
        s.budget = kb;
        std::string xb = serBytes(w, x.p);
        Bytes b(xb);
        bool threw = false;
        try { o.desObj(b.p, at); } catch (std::exception const&) { threw = true; }
        PBT_CHECK(threw, "a checkpoint of %s accepted as %s", w.name, o.name);
        memset(at, pat, o.size);
        c.label("failed restore in the caller's storage");
      }
    }
    Bytes b(bytes);
    void* r = o.desObj(b.p, at);
    PBT_CHECK(r == at, "%s: object built at %p, not in the caller's storage at %p", o.name, r, (void*)at);
    std::string got; o.put(got, r);
    PBT_EQ(o, got, want, "value restored in the caller's storage");
    for (size_t i = 0; i < front; i++) PBT_CHECK(m[i] == (char)pat, "%s: byte before the caller's storage written", o.name);
    for (size_t i = 0; i < back; i++) PBT_CHECK(at[o.size + i] == (char)pat, "%s: byte after the caller's storage written", o.name);
    o.destroy(r);
    memset(at, pat, o.size);
  }
}

namespace pbt {
void registerUnits() {
  for (auto& o : ops()) {
    addUnit(o.name, [&o](Src& s, Ctx& c) { callerBuffer(o, s, c); });
    addUnit(std::string(o.name) + " (storage)", [&o](Src& s, Ctx& c) { callerStorage(o, s, c); });
  }
}
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
