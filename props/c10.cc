// C10: inconsistent serialize functions are reported, not corrupting.
#include "script_common.h"
using namespace pbt;
using namespace script;

// Sizing follows one program, packing another.
static void sizePack(Src& s, Ctx& c) {
  ProgP p = genProg(s, 4), q = clone(*p);
  std::string what = "nothing";
  uint64_t k = s.draw(5);
  if (k >= 1) {
    if (k == 1) {                         // same fields, other lengths
      std::vector<std::pair<ProgP, int>> all;
      collect(q, 0, all);
      auto pr = all[s.draw(all.size())].first;
      if (!pr->ops.empty()) { auto& o = pr->ops[s.draw(pr->ops.size())]; o.n = unsigned(s.draw(400)); if (o.kind == kVecNode || o.kind == kMapNode) o.n = 1 + o.n % 4; what = "another length"; }
    } else { for (uint64_t i = 0; i < k - 1; i++) mutate(s, q, what); }
  }
  Node n;
  auto sizeWith = [&](Prog const* x) { g_plan = {x, x, x, x}; return checkpoint::getSize<Node>(n); };
  size_t sp = sizeWith(p.get()), sq = sizeWith(q.get());
  g_plan = {p.get(), q.get(), q.get(), p.get()};
  c.note(show(*p) + " (" + std::to_string(sp) + ") packed as " + show(*q) + " (" + std::to_string(sq) + ")");
  c.nontrivial(sp != sq);
  c.label(sp == sq ? "equal sizes" : sq > sp ? "packs more than sized" : "packs less than sized");
  uint64_t m = s.draw(4);
  std::string got, how;
  size_t off = s.draw(9);
  struct Mem { char* p = nullptr; ~Mem() { free(p); } } mem;
  TmpFile f("c10");
  std::string bytes;
  unsigned calls = 0;
  try {
    if (m <= 1) { how = "memory"; auto r = checkpoint::serialize<Node>(n); bytes.assign(r->getBuffer(), r->getSize()); }
    else if (m == 2) {
      how = "a caller's buffer";
      auto r = checkpoint::serialize<Node>(n, [&](size_t k) { calls++; mem.p = (char*)malloc(off + k); memset(mem.p, 'e', off + k); return mem.p + off; });
      bytes.assign(r->getBuffer(), r->getSize());
    } else { how = "a file"; if (s.draw(2)) spit(f.path, std::string(s.draw(9000), 'o')); checkpoint::serializeToFile<Node>(n, f.path); bytes = slurp(f.path); }
  } catch (serialization_error const&) {
    got = "serialization_error";
  } catch (std::exception const& e) {
    got = std::string("another exception: ") + e.what();
  }
  if (sp != sq) {
    PBT_CHECK(got == "serialization_error", "sized %zu bytes as %s, packed %zu as %s to %s: not reported as a serialization error but: %s", sp, show(*p).c_str(), sq, show(*q).c_str(), how.c_str(), got.empty() ? "accepted" : got.c_str());
    for (size_t i = 0; m == 2 && i < off; i++) PBT_CHECK(mem.p[i] == 'e', "a byte before the caller's buffer was written");
    // nothing lingers: a consistent object still works
    g_plan = {q.get(), q.get(), q.get(), q.get()};
    auto r = checkpoint::serialize<Node>(n);
    PBT_CHECK(r->getSize() == sq, "a consistent class failed after a reported inconsistency");
    g_mismatch = false;
    auto u = checkpoint::deserialize<Node>(r->getBuffer());
    PBT_CHECK(!g_mismatch, "a consistent class read other values after a reported inconsistency");
  } else {
    PBT_CHECK(got.empty(), "%zu bytes sized and packed to %s, refused: %s", sp, how.c_str(), got.c_str());
    PBT_CHECK(bytes.size() == sp, "%zu bytes sized, %zu produced in %s", sp, bytes.size(), how.c_str());
    g_plan = {q.get(), q.get(), q.get(), q.get()};
    g_mismatch = false;
    std::string g = restore<Node>(bytes, s.draw(5), 0);
    PBT_CHECK(g.empty() && !g_mismatch, "a consistent class (%s) was not restored: %s", show(*q).c_str(), g.c_str());
  }
}

// A raw field list: user classes whose sizes depend on a counter of calls, at the top level of every class kind.
template <int Kind> struct Drift {
  std::vector<int> v; static inline int calls = 0, change = 1 << 30, delta = 0;
  template <typename S> void go(S& s) {
    size_t n = v.size();
    if (++calls == change) n = size_t(long(n) + delta);
    for (size_t i = 0; i < n; i++) { int x = i < v.size() ? v[i] : 1; s | x; }
  }
};
struct DriftIn : Drift<0> { template <typename S> void serialize(S& s) { go(s); } };
struct DriftNon : Drift<1> {};
template <typename S> void serialize(S& s, DriftNon& d) { d.go(s); }
struct DriftSplit : Drift<2> { template <typename S> void serialize(S&) {} template <typename S> void serializeParent(S&) {} template <typename S> void serializeThis(S& s) { go(s); } };
struct DriftVirt : Drift<3> { checkpoint_virtual_serialize_root() virtual ~DriftVirt() = default; template <typename S> void serialize(S& s) { go(s); } };

template <typename T, typename D> void drift(Src& s, Ctx& c) {
  // n objects of which one emits a different number of fields in one of the passes
  std::vector<T> v(1 + s.draw(5));
  for (auto& x : v) x.v.assign(s.draw(6), 3);
  size_t passes = v.size();
  D::calls = 0; D::change = 1 << 30;
  size_t honest = checkpoint::getSize(v);
  bool sizing = s.draw(2);
  size_t at = s.draw(v.size());
  long delta = long(s.draw(9)) - 4;
  if (delta < 0 && size_t(-delta) > v[at].v.size()) delta = -long(v[at].v.size());
  D::calls = 0; D::delta = int(delta); D::change = int((sizing ? 0 : passes) + at + 1);
  c.note((sizing ? "sizing" : "packing") + std::string(" object ") + std::to_string(at) + " of " + std::to_string(v.size()) + " emits " + std::to_string(delta) + " fields more");
  c.nontrivial(delta != 0);
  std::string got;
  TmpFile f("c10");
  try {
    switch (s.draw(3)) {
    case 0: { auto r = checkpoint::serialize(v); break; }
    case 1: { struct Mem { char* p = nullptr; ~Mem() { free(p); } } mem; auto r = checkpoint::serialize(v, [&](size_t k) { return mem.p = (char*)malloc(k); }); break; }
    default: checkpoint::serializeToFile(v, f.path);
    }
  } catch (serialization_error const&) { got = "serialization_error"; } catch (std::exception const& e) { got = std::string("another exception: ") + e.what(); }
  D::change = 1 << 30;
  if (delta == 0) PBT_CHECK(got.empty(), "consistent objects refused: %s", got.c_str());
  else PBT_CHECK(got == "serialization_error", "%s pass: object %zu of %zu emitted %ld fields more than the other pass; not reported as a serialization error but: %s", sizing ? "sizing" : "packing", at, v.size(), delta, got.empty() ? "accepted" : got.c_str());
  PBT_CHECK(checkpoint::getSize(v) == honest, "size changed");
}

namespace pbt {
void registerUnits() {
  addUnit("sizing and packing follow different programs", sizePack, 12);
  addUnit("one object drifts: member serialize", drift<DriftIn, Drift<0>>, 2);
  addUnit("one object drifts: free serialize", drift<DriftNon, Drift<1>>, 2);
  addUnit("one object drifts: split", drift<DriftSplit, Drift<2>>, 2);
  addUnit("one object drifts: virtual", drift<DriftVirt, Drift<3>>, 2);
#ifdef SERIALIZATION_ERROR_CHECKING
  addUnit("unpacking follows another program than packing", [](Src& s, Ctx& c) { scriptUnpack(s, c, false); }, 12);
#endif
}
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
