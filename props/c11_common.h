// C11: classes that register every instance and can throw at a chosen event, and the generic test over holders of them.
#pragma once
#include "polybase.h"
#include <checkpoint/checkpoint.h>
#include <fstream>
#include <sstream>
#include <unordered_set>

namespace c11 {
using pbt::Src;
struct Init {};
struct Boom : std::exception { char const* what() const noexcept override { return "thrown by user code"; } };

// ------------------------------------------------------------ registry of live instances, and the fault plan
inline std::unordered_set<void const*> g_live;
inline std::string g_bad;
inline bool g_armed = false;
inline long g_event = 0, g_failAt = -1;
inline void bad(char const* m) { if (g_bad.empty()) g_bad = m; }
inline void event() { if (g_armed && g_event++ == g_failAt) throw Boom{}; }
// Allocations of the code under test may fail as well (operator new is intercepted at link time).
inline bool g_suspend = false;
inline long g_allocs = 0, g_allocFailAt = -1;
struct NoFaults { bool was = g_suspend; NoFaults() { g_suspend = true; } ~NoFaults() { g_suspend = was; } };      // the harness's own work
inline void born(void const* p) { NoFaults sus; if (!g_live.insert(p).second) bad("an object was constructed over a live one"); }
inline void died(void const* p) { if (!g_live.erase(p)) bad("an object that is not alive was destroyed"); }
inline void used(void const* p) { if (!g_live.count(p)) bad("an object that is not alive was used"); }

// Kind: 0 default constructor, 1 tagged constructor, 2 reconstruct
template <int Kind> struct Ctors;
template <int Kind, bool Copy> struct Trk {
  int v = 0;
  Trk(Init, int x) : v(x) { born(this); }
  template <int K = Kind, typename = std::enable_if_t<K == 0>> Trk() { event(); born(this); }
  template <int K = Kind, typename = std::enable_if_t<K == 1>> explicit Trk(checkpoint::SERIALIZE_CONSTRUCT_TAG) { event(); born(this); }
  Trk(Trk const& r) : v(r.v) { used(&r); event(); born(this); }
  Trk(Trk&& r) noexcept : v(r.v) { used(&r); born(this); }
  Trk& operator=(Trk const& r) { used(this); used(&r); event(); v = r.v; return *this; }
  Trk& operator=(Trk&& r) noexcept { used(this); used(&r); v = r.v; return *this; }
  ~Trk() { died(this); }
  template <typename S> void serialize(S& s) { used(this); event(); s | v; event(); }
  static Trk pbt_gen(Src& s) { return Trk(Init{}, pbt::gen<int>(s)); }
  void pbt_put(std::string& o) const { used(this); pbt::put(o, v); }
  bool operator<(Trk const& r) const { return v < r.v; }
  bool operator==(Trk const& r) const { return v == r.v; }
};
template <int Kind> struct Trk<Kind, false> {        // move-only
  int v = 0;
  Trk(Init, int x) : v(x) { born(this); }
  template <int K = Kind, typename = std::enable_if_t<K == 0>> Trk() { event(); born(this); }
  template <int K = Kind, typename = std::enable_if_t<K == 1>> explicit Trk(checkpoint::SERIALIZE_CONSTRUCT_TAG) { event(); born(this); }
  Trk(Trk&& r) noexcept : v(r.v) { used(&r); born(this); }
  Trk& operator=(Trk&& r) noexcept { used(this); used(&r); v = r.v; return *this; }
  ~Trk() { died(this); }
  template <typename S> void serialize(S& s) { used(this); event(); s | v; event(); }
  static Trk pbt_gen(Src& s) { return Trk(Init{}, pbt::gen<int>(s)); }
  void pbt_put(std::string& o) const { used(this); pbt::put(o, v); }
  bool operator<(Trk const& r) const { return v < r.v; }
  bool operator==(Trk const& r) const { return v == r.v; }
};
struct Rc {                                          // reconstruct only, copyable
  int v = 0;
  Rc(Init, int x) : v(x) { born(this); }
  static Rc& reconstruct(void* b) { event(); return *new (b) Rc(Init{}, -1); }
  Rc(Rc const& r) : v(r.v) { used(&r); event(); born(this); }
  Rc& operator=(Rc const& r) { used(this); used(&r); event(); v = r.v; return *this; }
  ~Rc() { died(this); }
  template <typename S> void serialize(S& s) { used(this); event(); s | v; }
  static Rc pbt_gen(Src& s) { return Rc(Init{}, pbt::gen<int>(s)); }
  void pbt_put(std::string& o) const { used(this); pbt::put(o, v); }
  bool operator<(Rc const& r) const { return v < r.v; }
  bool operator==(Rc const& r) const { return v == r.v; }
};
using D = Trk<0, true>; using T = Trk<1, true>; using Dm = Trk<0, false>; using Tm = Trk<1, false>;
struct Hash { template <typename X> size_t operator()(X const& x) const { return size_t(x.v) % 7; } };

// members of each kind, with a string so that memory is owned as well
struct Rec {
  D a{Init{}, 1}; std::string s; std::vector<T> b; std::unique_ptr<Rc> c; Dm d{Init{}, 2};
  template <typename S> void serialize(S& x) { x | a | s | b | c | d; }
  static Rec pbt_gen(Src& s) { Rec r; r.a = pbt::gen<D>(s); r.s = pbt::gen<std::string>(s); r.b = pbt::gen<std::vector<T>>(s); r.c = pbt::gen<std::unique_ptr<Rc>>(s); r.d = pbt::gen<Dm>(s); return r; }
  void pbt_put(std::string& o) const { o += '{'; pbt::put(o, a); o += ','; pbt::put(o, s); pbt::put(o, b); pbt::put(o, c); pbt::put(o, d); o += '}'; }
};
// documented use of the pointer helper: raw and shared
struct Raw {
  Tm* p = nullptr; std::shared_ptr<Rc> q;
  Raw() = default; Raw(Raw&& r) noexcept : p(r.p), q(std::move(r.q)) { r.p = nullptr; }
  ~Raw() { delete p; }
  template <typename S> void serialize(S& s) {
    bool np = p == nullptr, nq = q == nullptr;
    s | np | nq;
    if (s.isUnpacking()) { delete p; p = nullptr; q.reset(); }
    if (!np) { Tm* t = p; checkpoint::reconstructPointedToObjectIfNeeded(s, t); p = t; s | *p; }
    if (!nq) { Rc* t = q.get(); checkpoint::reconstructPointedToObjectIfNeeded(s, t); if (s.isUnpacking()) q.reset(t); s | *q; }
  }
  static Raw pbt_gen(Src& s) { Raw r; if (s.draw(3)) r.p = new Tm(Init{}, pbt::gen<int>(s)); if (s.draw(3)) r.q = std::make_shared<Rc>(Init{}, pbt::gen<int>(s)); return r; }
  void pbt_put(std::string& o) const { if (p) pbt::put(o, *p); o += '/'; if (q) pbt::put(o, *q); }
};
// a registered hierarchy
struct PB {
  checkpoint_virtual_serialize_root()
  D a{Init{}, 0};
  PB() { event(); }
  explicit PB(Init) {}
  virtual ~PB() = default;
  template <typename S> void serialize(S& s) { s | a; event(); }
  virtual void put(std::string& o) const { o += "B"; pbt::put(o, a); }
};
struct PD : PB {
  checkpoint_virtual_serialize_derived_from(PB)
  std::vector<T> t; std::string s_;
  explicit PD(Init i) : PB(i) {}
  explicit PD(checkpoint::SERIALIZE_CONSTRUCT_TAG) : PB() { event(); }
  template <typename S> void serialize(S& s) { event(); s | t | s_; }
  void put(std::string& o) const override { PB::put(o); o += "D"; pbt::put(o, t); pbt::put(o, s_); }
};
struct PE : PD {
  checkpoint_virtual_serialize_derived_from(PD)
  std::unique_ptr<PB> in;
  explicit PE(Init i) : PD(i) {}
  static PE& reconstruct(void* b) { event(); return *new (b) PE(Init{}); }
  template <typename S> void serialize(S& s) { s | in; event(); }
  void put(std::string& o) const override { PD::put(o); o += "E"; if (in) in->put(o); }
};
inline std::unique_ptr<PB> genPB(Src& s, int d) {
  if (poly::g_noChildren) return nullptr;
  switch (s.draw(d > 0 ? 5 : 4)) {
  case 0: return nullptr;
  case 1: { auto p = std::make_unique<PB>(Init{}); p->a.v = pbt::gen<int>(s); return p; }
  case 2: case 3: { auto p = std::make_unique<PD>(Init{}); p->t = pbt::gen<std::vector<T>>(s); p->s_ = pbt::gen<std::string>(s); return p; }
  default: { auto p = std::make_unique<PE>(Init{}); p->t = pbt::gen<std::vector<T>>(s); p->in = genPB(s, d - 1); return p; }
  }
}
struct Balance {                     // the instances alive outside of what the library may have created
  std::unordered_set<void const*> before = g_live;
  void check(char const* when) {
    PBT_CHECK(g_bad.empty(), "%s: %s", when, g_bad.c_str());
    size_t gone = 0, extra = 0;
    for (auto p : before) if (!g_live.count(p)) gone++;
    for (auto p : g_live) if (!before.count(p)) extra++;
    PBT_CHECK(gone == 0, "%s: %zu objects of the caller were destroyed", when, gone);
    PBT_CHECK(extra == 0, "%s: %zu objects were constructed but never destroyed", when, extra);
  }
};
}  // namespace c11

namespace pbt {
template <> struct IsPoly<c11::PB> : std::true_type {};
template <> struct Gn<std::unique_ptr<c11::PB>> { static std::unique_ptr<c11::PB> gen(Src& s) { return c11::genPB(s, 2); } };
template <> struct Rp<c11::PB> { static void put(std::string& o, c11::PB const& p) { p.put(o); } };
// in-place targets of polymorphic pointers are null or of the same dynamic type
template <> struct Prior<std::unique_ptr<c11::PB>> { static std::unique_ptr<c11::PB> make(Src&, std::unique_ptr<c11::PB> const&) { return nullptr; } };
template <> struct Prior<std::vector<std::unique_ptr<c11::PB>>> { static std::vector<std::unique_ptr<c11::PB>> make(Src& s, std::vector<std::unique_ptr<c11::PB>> const&) { return std::vector<std::unique_ptr<c11::PB>>(s.draw(6)); } };
}  // namespace pbt

namespace c11 {
template <typename H> void test(Src& s, pbt::Ctx& c) {
  s.budget = s.draw(4) ? 5 : 24;
  g_bad.clear(); g_armed = false; g_live.clear();
  Balance outer;
  {
    H v = pbt::gen<H>(s);
    std::string rep = pbt::repr(v);
    uint64_t op = s.draw(16);
    // bytes and a file to restore from, made without faults
    std::string bytes;
    { auto r = checkpoint::serialize<H>(v); bytes.assign(r->getBuffer(), r->getSize()); }
    std::string path = pbt::scratchDir() + "/c11.ckpt";
    std::string cut = bytes.substr(0, bytes.empty() ? 0 : s.draw(bytes.size()));
    std::unique_ptr<H> target;
    if (op >= 10 && op <= 13) target = std::make_unique<H>(pbt::Prior<H>::make(s, v));
    uint64_t how = s.draw(4);
    c.note(rep.substr(0, 200) + pbt::strf(" operation %d", int(op)));
    if (op == 8 || op == 12) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(bytes.data(), (std::streamsize)bytes.size()); }
    char* buf = static_cast<char*>(malloc(bytes.size() ? bytes.size() : 1));
    memcpy(buf, bytes.data(), bytes.size());
    struct Free { char*& p; ~Free() { free(p); } } fr{buf};
    alignas(64) static char storage[4096];
    static_assert(sizeof(H) <= sizeof storage, "");
    bool mustFail = false, exact = false;
    char const* name = "";
    auto run = [&](Balance& b) {                       // returns normally or throws
      std::unique_ptr<H> u;
      switch (op) {
      case 0: name = "getSize"; checkpoint::getSize<H>(v); break;
      case 1: name = "serialize"; { auto r = checkpoint::serialize<H>(v); } break;
      case 2: {
        name = "serialize into the caller's buffer";
        char* mine = nullptr;
        struct F { char*& p; ~F() { free(p); } } f{mine};
        auto r = checkpoint::serialize<H>(v, [&](std::size_t n) -> char* { if (how == 0) throw Boom{}; if (how == 1) return nullptr; return mine = static_cast<char*>(malloc(n ? n : 1)); });
        break;
      }
      case 3: name = "getMemoryFootprint"; checkpoint::getMemoryFootprint<H>(v); break;
      case 4: name = "serializeToFile"; checkpoint::serializeToFile<H>(v, path); break;
      case 5: { name = "serializeToStream"; std::ostringstream os; checkpoint::serializeToStream<H>(v, static_cast<std::ostream&>(os)); break; }
      case 6: name = "deserialize"; exact = true; u = checkpoint::deserialize<H>(buf); break;
      case 7: { name = "deserializeFromStream"; exact = true; std::istringstream is(bytes); u = checkpoint::deserializeFromStream<H>(static_cast<std::istream&>(is)); break; }
      case 8: name = "deserializeFromFile"; exact = true; u = checkpoint::deserializeFromFile<H>(path); break;
      case 9: {
        name = "deserialize into the caller's storage";
        H* h = checkpoint::deserialize<H>(buf, storage);
        NoFaults off;
        std::string g = pbt::repr(*h);
        h->~H();
        PBT_CHECK(g == rep, "%s: %s", name, pbt::firstDiff(rep, g).c_str());
        break;
      }
      case 10: name = "deserializeInPlace"; checkpoint::deserializeInPlace<H>(buf, target.get()); break;
      case 11: { name = "deserializeInPlaceFromStream"; std::istringstream is(bytes); checkpoint::deserializeInPlaceFromStream<H>(static_cast<std::istream&>(is), target.get()); break; }
      case 12: name = "deserializeInPlaceFromFile"; checkpoint::deserializeInPlaceFromFile<H>(path, target.get()); break;
      case 13: { name = "restoring in place from a truncated stream"; mustFail = true; std::istringstream is(cut); checkpoint::deserializeInPlaceFromStream<H>(static_cast<std::istream&>(is), target.get()); break; }
      case 14: { name = "restoring from a truncated stream"; mustFail = true; std::istringstream is(cut); u = checkpoint::deserializeFromStream<H>(static_cast<std::istream&>(is)); break; }
      default:
        mustFail = true;
        switch (how) {
        case 0: { name = "restoring as another type"; struct Other { std::vector<D> x; void serialize(checkpoint::Sizer& s) { s | x; } }; checkpoint::deserialize<std::pair<std::vector<D>, Raw>>(buf); break; }
        case 1: name = "writing a file in a missing directory"; checkpoint::serializeToFile<H>(v, path + ".missing/x"); break;
        case 2: name = "reading a missing file"; u = checkpoint::deserializeFromFile<H>(path + ".missing"); break;
        default: { name = "reading a truncated file"; { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(cut.data(), (std::streamsize)cut.size()); } u = checkpoint::deserializeFromFile<H>(path); }
        }
      }
      NoFaults off;
      if (u) { std::string g = pbt::repr(*u); PBT_CHECK(g == rep, "%s: %s", name, pbt::firstDiff(rep, g).c_str()); }
      (void)b;
    };
    long lastAllocs = 0;
    auto attempt = [&](long failAt, long allocFailAt = -1) -> bool {          // true when it threw
      Balance b;
      // the target's own contents belong to the caller, but restoring replaces them: count them out by rebuilding it
      std::unique_ptr<H> mine;
      if (target) { Src s2(0, s.rec); (void)s2; mine = std::move(target); }
      std::unique_ptr<H> fresh;
      if (mine) {
        // `mine` is the prototype of previous contents; every attempt restores into one of its own, made from bytes of it
        auto r = checkpoint::serialize<H>(*mine);
        fresh = checkpoint::deserialize<H>(r->getBuffer());
        target = std::move(fresh);
      }
      g_event = 0; g_failAt = failAt; g_allocs = 0; g_allocFailAt = allocFailAt; g_armed = true;
      bool threw = false; std::string ex;
      try { run(b); } catch (pbt::Failure const&) { g_armed = false; throw; } catch (Boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; } catch (std::runtime_error const& e) { threw = true; ex = e.what(); }
      g_armed = false;
      if (target) {
        // still usable whatever happened
        if (threw) { checkpoint::deserializeInPlace<H>(buf, target.get()); }
        std::string g = pbt::repr(*target);
        PBT_CHECK(g == rep, "%s, restored again afterwards: %s", name, pbt::firstDiff(rep, g).c_str());
        target.reset();
        target = std::move(mine);
      }
      if (allocFailAt < 0 && failAt < 0) lastAllocs = g_allocs;
      std::string when = std::string(name) + (allocFailAt >= 0 ? pbt::strf(" (allocation %ld fails)", allocFailAt) : "") + (threw ? " failing" : " succeeding") + (failAt >= 0 ? pbt::strf(" (user code throws at event %ld)", failAt) : "");
      b.check(when.c_str());
      std::string after = pbt::repr(v);
      PBT_CHECK(after == rep, "the source after %s: %s", when.c_str(), pbt::firstDiff(rep, after).c_str());
      return threw;
    };
    bool threw = attempt(-1);
    PBT_CHECK(!mustFail || threw, "%s did not fail", name);
    PBT_CHECK(mustFail || !threw || (op == 2 && how == 0), "%s failed", name);
    long events = g_event, allocs = lastAllocs, starved = 0;
    c.label(std::string(name));
    long tried = 0;
    if (events > 0) {
      long step = std::max<long>(1, events / (pbt::thorough() ? 40 : 14));
      for (long k = long(s.draw(uint64_t(step))); k < events; k += step) {
        if (attempt(k)) tried++;
        if (!mustFail) PBT_CHECK(g_event > k, "%s: event %ld not reached again", name, k);
      }
    }
    if (allocs > 0) {
      long step = std::max<long>(1, allocs / (pbt::thorough() ? 30 : 8));
      for (long k = long(s.draw(uint64_t(step))); k < allocs; k += step) if (attempt(-1, k)) starved++;
    }
    c.label("failed allocations", uint64_t(starved));
    c.label("failure points", uint64_t(tried));
    c.nontrivial(tried > 0 || mustFail);
    remove(path.c_str());
  }
  outer.check("at the end");
}
template <typename H> void unit(char const* name) { pbt::addUnit(name, [](Src& s, pbt::Ctx& c) { test<H>(s, c); }, 3); }
}  // namespace c11
#define C11(...) c11::unit<__VA_ARGS__>("lifetimes of " #__VA_ARGS__)
