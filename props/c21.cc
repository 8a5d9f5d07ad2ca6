// C21: any history of mutations, checkpoints, restores and rejected operations behaves as a snapshot store.
#include "../pbt/ops.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;

namespace {
// A value is named by the seed it was generated from, so that the model can make it again at any time.
struct Value { TypeOps const* o = nullptr; uint64_t seed = 0; size_t budget = 0; };
Obj make(Value const& v) { Src s(v.seed, childRecord()); s.budget = v.budget; return genObj(*v.o, s); }
std::string repOf(Value const& v) { return make(v).rep(); }

struct Live { Value v; Obj obj; std::string rep; };
enum Medium { kRet, kCaller, kFileSlot, kStringSlot, kMedia };
struct Slot {
  Medium m = kRet; bool full = false; Value v; std::string rep; unsigned restored = 0;
  checkpoint::SerializedReturnType ret{nullptr};
  std::unique_ptr<char[]> mem; size_t n = 0;
  std::string path; std::unique_ptr<std::stringstream> ss; size_t at = 0;
};
struct Dir { std::string p; Dir() : p(tmpFile("c21d")) { mkdir(p.c_str(), 0700); } ~Dir() { for (int i = 0; i < 8; i++) { remove((p + "/s" + std::to_string(i)).c_str()); remove((p + "/t" + std::to_string(i)).c_str()); } rmdir(p.c_str()); } };

struct Store {
  Src& s; Ctx& c; Dir dir;
  std::vector<Live> live; std::vector<Slot> slots;
  std::stringstream journal; std::vector<Value> pending; size_t readAt = 0, written = 0;
  std::string trace; unsigned meaningful = 0;
  Store(Src& src, Ctx& ctx) : s(src), c(ctx) {}

  Value newValue(TypeOps const* o) { return {o, s.draw(1u << 30), size_t(s.pick<uint64_t>({12, 60, 200}))}; }
  void step(std::string const& t) { trace += t + "; "; }
  void same(Obj const& got, std::string const& want, char const* what) {
    std::string g = got.rep();
    PBT_CHECK(g == want, "%s of %s: %s\n  after: %s", what, got.o->name, firstDiff(want, g).c_str(), clip(trace, 1500).c_str());
  }
  void checkLive(Live& l) { same(l.obj, l.rep, "live object"); }
  // the bytes of a slot, exactly sized
  std::string bytesOf(Slot& sl) {
    switch (sl.m) {
    case kRet: return std::string(sl.ret->getBuffer(), sl.ret->getSize());
    case kCaller: return std::string(sl.mem.get(), sl.n);
    case kFileSlot: return slurp(sl.path);
    default: return sl.ss->str();
    }
  }
  void checkpointTo(Live& l, Slot& sl) {
    auto& o = *l.v.o;
    switch (sl.m) {
    case kRet: sl.ret = o.ser(l.obj.p, nullptr); break;
    case kCaller: {
      auto keep = o.ser(l.obj.p, [&](std::size_t n) { sl.mem.reset(new char[n ? n : 1]); sl.n = n; return sl.mem.get(); });
      break;
    }
    case kFileSlot: o.toFile(l.obj.p, sl.path); break;
    default: sl.ss = std::make_unique<std::stringstream>(); o.toStream(l.obj.p, o.allStreams && s.draw(2) ? kStringStream : kBase, *sl.ss); break;
    }
    sl.full = true; sl.v = l.v; sl.rep = l.rep; sl.restored = 0;
  }
  Obj restoreFrom(Slot& sl) {
    auto& o = *sl.v.o;
    switch (sl.m) {
    case kRet: return Obj(o, o.des(sl.ret->getBuffer()));
    case kCaller: return Obj(o, o.des(sl.mem.get()));
    case kFileSlot: return Obj(o, o.fromFile(sl.path));
    default: sl.ss->clear(); sl.ss->seekg(0); return Obj(o, o.fromStream(o.allStreams && s.draw(2) ? kStringStream : kBase, *sl.ss));
    }
  }
  void restoreInto(Slot& sl, Obj& t) {
    auto& o = *sl.v.o;
    switch (sl.m) {
    case kRet: o.desIn(sl.ret->getBuffer(), t.p); break;
    case kCaller: o.desIn(sl.mem.get(), t.p); break;
    case kFileSlot: o.fromFileIn(sl.path, t.p); break;
    default: sl.ss->clear(); sl.ss->seekg(0); o.fromStreamIn(kBase, *sl.ss, t.p);
    }
  }
  void restoreNew(size_t j, bool adopt) {
    auto& sl = slots[j];
    Obj w = restoreFrom(sl);
    same(w, sl.rep, ("restore from slot " + std::to_string(j)).c_str());
    { Obj like = make(sl.v); PBT_CHECK(sl.v.o->capOK(like.p, w.p), "capacity of %s restored from slot %zu is lower than at the checkpoint\n  after: %s", sl.v.o->name, j, clip(trace, 1500).c_str()); }
    if (sl.restored++ || adopt) meaningful++;
    if (adopt) { auto& l = live[s.draw(live.size())]; l.obj = std::move(w); l.v = sl.v; l.rep = sl.rep; }
  }

  template <typename F> void rejected(char const* what, F f) {
    try { f(); } catch (std::exception const&) { return; }
    PBT_FAIL("%s was not rejected\n  after: %s", what, clip(trace, 1500).c_str());
  }

  void op() {
    uint64_t k = s.draw(18);
    size_t i = s.draw(live.size()), j = s.draw(slots.size());
    auto& l = live[i]; auto& sl = slots[j];
    auto lbl = strf("%c%zu", "MUFS"[sl.m], j);
    switch (k) {
    case 0: case 1: {     // mutate: another value, possibly of another type
      TypeOps const* o = s.draw(5) == 4 ? &ops()[s.draw(ops().size())] : l.v.o;
      step(strf("mutate %zu", i));
      l.v = newValue(o);
      if (l.obj.o == o && s.draw(2)) { Src g(l.v.seed, childRecord()); g.budget = l.v.budget; o->remake(l.obj.p, g); }     // the same object
      else l.obj = make(l.v);
      l.rep = l.obj.rep();
      break;
    }
    case 2: case 3: case 4: case 5:
      step(strf("checkpoint %zu->%s", i, lbl.c_str()));
      checkpointTo(l, sl); checkLive(l);
      break;
    case 6: case 7: case 8:
      if (!sl.full) return;
      { bool adopt = s.draw(2); step("restore " + lbl); restoreNew(j, adopt); }
      break;
    case 9: case 10: {    // in place over whatever the object holds
      if (!sl.full) return;
      bool poly = strstr(sl.v.o->name, "poly");     // the dynamic types of polymorphic targets must match (documented)
      Live* t = nullptr;
      for (auto& x : live) if (x.v.o == sl.v.o && (!t || s.draw(2))) t = &x;
      if (!t) t = &l;
      if (t->v.o != sl.v.o || poly) { Obj like = make(sl.v); s.budget = 60; t->obj = Obj(*sl.v.o, sl.v.o->prior(s, like.p)); }
      step("restore in place " + lbl);
      restoreInto(sl, t->obj);
      t->v = sl.v; t->rep = sl.rep;
      same(t->obj, sl.rep, "restore in place");
      meaningful++;
      break;
    }
    case 11: {            // journal: append, or read the next entry back
      if (s.draw(2) || pending.size() == readAt) {
        step(strf("append %zu", i));
        journal.clear(); journal.seekp(0, std::ios::end);
        l.v.o->toStream(l.obj.p, kBase, journal);
        pending.push_back(l.v);
      } else {
        step("read journal");
        auto& v = pending[readAt++];
        Obj w(*v.o, v.o->fromStream(kBase, journal));
        same(w, repOf(v), "journal entry");
        meaningful++;
      }
      break;
    }
    case 12: {            // rejected: another type
      if (!sl.full) return;
      auto& w = ops()[s.draw(ops().size())];
      if (*w.ti == *sl.v.o->ti) return;
      step("restore " + lbl + " as another type");
      rejected("restoring as another type", [&] {
        switch (sl.m) {
        case kFileSlot: Obj(w, w.fromFile(sl.path)); break;
        case kStringSlot: sl.ss->clear(); sl.ss->seekg(0); Obj(w, w.fromStream(kBase, *sl.ss)); break;
        default: Bytes b(bytesOf(sl)); Obj(w, w.des(b.p));
        }
      });
      break;
    }
    case 13: {            // rejected: a truncated copy of a slot
      if (!sl.full) return;
      std::string b = bytesOf(sl);
      if (b.empty()) return;
      b.resize(s.draw(b.size()));
      auto& o = *sl.v.o;
      step("restore truncated " + lbl);
      if (s.draw(2)) { std::istringstream is(b); rejected("restoring a truncated stream", [&] { Obj(o, o.fromStream(kBase, is)); }); }
      else { std::string f = dir.p + "/t0"; spit(f, b); rejected("restoring a truncated file", [&] { Obj(o, o.fromFile(f)); }); remove(f.c_str()); }
      break;
    }
    case 14:              // rejected: writing where no file can be, reading what does not exist, a throwing callback
      step("failed operation");
      switch (s.draw(4)) {
      case 0: rejected("writing to a directory", [&] { l.v.o->toFile(l.obj.p, dir.p); }); break;
      case 1: rejected("writing below a file that does not exist", [&] { l.v.o->toFile(l.obj.p, dir.p + "/none/f"); }); break;
      case 2: rejected("reading a missing file", [&] { Obj(*l.v.o, l.v.o->fromFile(dir.p + "/missing")); }); break;
      default: rejected("a throwing callback", [&] { l.v.o->ser(l.obj.p, [](std::size_t) -> char* { throw std::runtime_error("no memory"); }); });
      }
      checkLive(l);
      break;
    case 16: case 17: {   // the same slot again and again, for an object that changes in between
      size_t times = 2 + s.draw(3);
      for (size_t t = 0; t < times; t++) {
        step(strf("change %zu, checkpoint ->%s, restore", i, lbl.c_str()));
        uint64_t how = s.draw(4);
        if (how & 1) l.v.o->getSize(l.obj.p);
        l.v.seed = s.draw(1u << 30);
        Src g(l.v.seed, childRecord()); g.budget = l.v.budget;
        l.v.o->remake(l.obj.p, g);
        l.rep = l.obj.rep();
        checkpointTo(l, sl);
        if (how & 2) restoreNew(j, false);
        else { Obj t2(*sl.v.o, sl.v.o->prior(s, l.obj.p)); restoreInto(sl, t2); same(t2, sl.rep, "restore in place"); }
      }
      checkLive(l);
      meaningful++;
      break;
    }
    default:              // observing, or moving a slot's medium around
      step("observe");
      if (s.draw(2)) { l.v.o->getSize(l.obj.p); l.v.o->footprint(l.obj.p, 0); checkLive(l); }
      else if (sl.full && sl.m == kFileSlot) { std::string f = dir.p + "/t1"; if (rename(sl.path.c_str(), f.c_str()) == 0 && s.draw(2)) { Obj w(*sl.v.o, sl.v.o->fromFile(f)); same(w, sl.rep, "renamed file"); } rename(f.c_str(), sl.path.c_str()); }
      else if (sl.full && sl.m == kRet) {
        if (s.draw(2)) { auto moved = std::move(sl.ret); sl.ret = std::move(moved); }
        else { Obj w(*sl.v.o, sl.v.o->desRet(std::move(sl.ret))); same(w, sl.rep, "restore consuming the buffer"); sl.full = false; sl.ret = nullptr; meaningful++; }
      }
    }
  }
  void run() {
    size_t no = 1 + s.draw(4), ns = 1 + s.draw(6), nt = 1 + s.draw(3);
    std::vector<TypeOps const*> types;
    for (size_t i = 0; i < nt; i++) types.push_back(&ops()[s.draw(ops().size())]);
    for (size_t i = 0; i < no; i++) { Live l; l.v = newValue(types[s.draw(nt)]); l.obj = make(l.v); l.rep = l.obj.rep(); live.push_back(std::move(l)); }
    for (size_t j = 0; j < ns; j++) { Slot sl; sl.m = Medium(s.draw(kMedia)); sl.path = dir.p + "/s" + std::to_string(j); slots.push_back(std::move(sl)); }
    size_t steps = 4 + s.draw(thorough() ? 117 : 37);
    for (size_t k = 0; k < steps; k++) op();
    step("END");
    for (auto& l : live) checkLive(l);
    for (size_t j = 0; j < ns; j++) if (slots[j].full) for (int k = 0; k < 2; k++) restoreNew(j, false);
    while (readAt < pending.size()) { auto& v = pending[readAt++]; Obj w(*v.o, v.o->fromStream(kBase, journal)); same(w, repOf(v), "journal entry"); }
    for (auto& l : live) checkLive(l);
    c.nontrivial(meaningful > 0);
    c.note(trace);
    c.label("operations", steps);
  }
};
}  // namespace
namespace pbt {
void registerUnits() { addUnit("store", [](Src& s, Ctx& c) { Store st(s, c); st.run(); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
