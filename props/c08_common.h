// C08 / C22: what a generated class recorded about its construction and its serialize functions, in one position.
#pragma once
#include "values.h"
#include <checkpoint/checkpoint.h>
#include <sstream>

namespace c08 {
struct Init {};
struct Rec {};
struct Call { int cls; char what; char mode; };
inline std::vector<Call> g_calls;
inline std::string g_made;               // constructions done by the library, in order
inline int g_madeOf = -1;
inline bool g_watch = false;
template <typename S> char modeOf(S& s) { return s.isSizing() ? 'z' : s.isPacking() ? 'p' : s.isUnpacking() ? 'u' : s.isFootprinting() ? 'f' : '?'; }
template <typename S> void call(S& s, int cls, char what) { g_calls.push_back({cls, what, modeOf(s)}); }
inline void made(int cls, char how) { if (g_watch && (g_madeOf < 0 || g_madeOf == cls)) g_made += how; }
inline void pattern(unsigned char* raw, int v) { memcpy(raw, &v, 4); for (int i = 4; i < 12; i++) raw[i] = (unsigned char)(v * 31 + i * 7); }
inline unsigned uv(int v) { return unsigned(v); }
struct Hash { template <typename T> size_t operator()(T const& t) const { return size_t(t.key()) % 5; } };

struct PolyRoot {
  checkpoint_virtual_serialize_root()
  int rootValue = 1;
  virtual ~PolyRoot() = default;
  PolyRoot() = default; PolyRoot(PolyRoot const&) = default; PolyRoot& operator=(PolyRoot const&) = default;
  template <typename S> void serialize(S& s) { s | rootValue; }
};
struct PolyRootF {                        // serialized by a free function
  checkpoint_virtual_serialize_root()
  int rootValue = 1;
  virtual ~PolyRootF() = default;
  PolyRootF() = default; PolyRootF(PolyRootF const&) = default; PolyRootF& operator=(PolyRootF const&) = default;
};
template <typename S> void serialize(S& s, PolyRootF& r) { s | r.rootValue; }

// Pointers held the documented ways.
template <typename T> struct RawHolder {
  std::vector<T*> p;
  RawHolder() = default; RawHolder(RawHolder const&) = delete;
  ~RawHolder() { for (T* x : p) delete x; }
  void add(T* t) { p.push_back(t); }
  template <typename S> void serialize(S& s) {
    size_t n = p.size(); s | n;
    if (s.isUnpacking()) { for (T* x : p) delete x; p.assign(n, nullptr); }
    for (size_t i = 0; i < n; i++) { T* t = p[i]; checkpoint::reconstructPointedToObjectIfNeeded(s, t); p[i] = t; s | *p[i]; }
  }
};
template <typename T> struct SharedHolder {
  std::vector<std::shared_ptr<T>> p;
  void add(T* t) { p.emplace_back(t); }
  template <typename S> void serialize(S& s) {
    size_t n = p.size(); s | n;
    if (s.isUnpacking()) { p.clear(); p.resize(n); }
    for (size_t i = 0; i < n; i++) { T* t = p[i].get(); checkpoint::reconstructPointedToObjectIfNeeded(s, t); if (s.isUnpacking()) p[i].reset(t); s | *p[i]; }
  }
};
template <typename T> struct ArrHolder {         // owns its array; the library restores the elements in place
  T* a = nullptr; int n = 0;
  ArrHolder() = default; ArrHolder(ArrHolder const&) = delete;
  ~ArrHolder() { delete[] a; }
  void add(T* t) { T* b = alloc(n + 1); for (int i = 0; i < n; i++) b[i] = std::move(a[i]); b[n++] = std::move(*t); delete t; delete[] a; a = b; }
  static T* alloc(int k) { bool w = g_watch; g_watch = false; T* b = new T[k]; g_watch = w; return b; }
  template <typename S> void serialize(S& s) {
    s | n;
    if (s.isUnpacking()) { delete[] a; a = alloc(n); }
    checkpoint::dispatch::serializeArray(s, a, n);
  }
};

struct Traits { bool serializeFunction, byteCopyable, defaultC, tagged, recon, constructible, serializable, traversable; };
inline std::string show(Traits const& t) { return pbt::strf("serialize function %d, byte-copyable %d, default %d, tagged %d, reconstructible %d, constructible %d, serializable %d, traversable %d", t.serializeFunction, t.byteCopyable, t.defaultC, t.tagged, t.recon, t.constructible, t.serializable, t.traversable); }

template <typename P> std::multiset<int> keys(typename P::H& h) { std::multiset<int> k; P::each(h, [&](auto& e) { k.insert(e.key()); }); return k; }

inline void traits(char const* name, Traits got, Traits want) {
#if PROP == 22
  pbt::addUnit(name, [got, want](pbt::Src&, pbt::Ctx& c) { c.nontrivial(); PBT_CHECK(show(got) == show(want), "the trait queries say: %s; the class is: %s", show(got).c_str(), show(want).c_str()); }, 1);
#endif
}

// calls in one mode must be `n` times the facility's sequence
inline void calls(char const* what, char const* seq, size_t n, char const* modes, bool footAll) {
  for (char m : std::string("zpuf?")) {
    std::string got, want;
    for (auto& c : g_calls) if (c.mode == m) got += c.what;
    bool need = strchr(modes, m) != nullptr;
    if (m == 'f' && !footAll) continue;
    if (!need && got.empty()) continue;
    for (size_t i = 0; i < n; i++) want += seq;
    std::string w = want;
    if (m == 'z' || !need) while (!want.empty() && w.size() < got.size() && m == 'z') w += want;
    PBT_CHECK(got == w, "%s: serialize functions called in mode %c: \"%s\" instead of \"%s\"", what, m, pbt::clip(got, 60).c_str(), pbt::clip(w, 60).c_str());
  }
  g_calls.clear();
}

template <typename P> void test(pbt::Src& s, pbt::Ctx& c) {
  using H = typename P::H;
  std::vector<int> vs;
  size_t n = s.draw(3) == 2 ? pbt::genLen(s, 70) : s.draw(6);
  for (size_t i = 0; i < n; i++) vs.push_back(int(s.draw(4) ? s.draw(1000) : s.draw(6)));
  auto src = P::make(vs);
  auto want = keys<P>(*src);
  size_t k = want.size();
  c.nontrivial(k >= 1);
  c.label(k == 0 ? "no objects" : k == 1 ? "one object" : "several objects");
  for (int v : want) c.note(std::to_string(v) + " ");
  g_calls.clear();
  auto r = checkpoint::serialize<H>(*src);
  auto seq = P::seq;
#if PROP == 22
  calls("serialize", seq, k, "zp", P::footAll);
  checkpoint::getSize<H>(*src);
  calls("getSize", seq, k, "z", P::footAll);
  checkpoint::getMemoryFootprint<H>(*src);
  calls("getMemoryFootprint", seq, k, "f", P::footAll);
#endif
  std::string bytes(r->getBuffer(), r->getSize());
#if PROP == 22
  if (P::bytes) {              // bytes are transferred verbatim
    P::each(*src, [&](auto& e) {
      std::string b(reinterpret_cast<char const*>(&e), sizeof e);
      PBT_CHECK(bytes.find(b) != std::string::npos, "the bytes of a byte-copyable object are not in its serialized form");
    });
  }
  size_t leafBytes = 0;
  (void)leafBytes;
#endif
  std::set<int*> seen;
  std::set<void const*> owned;
  auto judge = [&](H& h, char const* how, bool mayKeep) {
    auto got = keys<P>(h);
    PBT_CHECK(got == want, "%s: %zu objects with other values than the %zu serialized", how, got.size(), want.size());
#if PROP == 8
    if constexpr (std::is_same<H, ArrHolder<typename P::T>>::value) return;      // allocates its own elements
    if constexpr (!P::bytes) {
      P::each(h, [&](auto& e) {
        bool ok = e.how == P::expected || (mayKeep && e.how == 'I');
        PBT_CHECK(ok, "%s: an object was constructed by %c instead of %c (D default, T tagged, R reconstruct)", how, e.how, P::expected);
        PBT_CHECK(e.own && e.own.use_count() == 1, "%s: objects share the state one of them was constructed with", how);
        PBT_CHECK(seen.insert(e.own.get()).second, "%s: objects share the state one of them was constructed with", how);
      });
    }
    for (char m : g_made) PBT_CHECK(m == P::expected, "%s: a construction by %c instead of %c (D default, T tagged, R reconstruct)", how, m, P::expected);
    if (!mayKeep && !P::bytes) PBT_CHECK(g_made.size() >= k, "%s: %zu constructions for %zu objects", how, g_made.size(), k);
#endif
    (void)mayKeep;
  };
#if PROP == 8
  P::each(*src, [&](auto& e) { if constexpr (!P::bytes) seen.insert(e.own.get()); (void)e; });
#endif
  g_watch = true; g_madeOf = P::cls;
  struct Off { ~Off() { g_watch = false; } } off;
  auto restore = [&](char const* how, auto&& f, bool mayKeep) {
    g_made.clear(); g_calls.clear();
    f();
    (void)how; (void)mayKeep;
#if PROP == 22
    calls(how, seq, k, "u", P::footAll);
#endif
  };
  std::unique_ptr<H> u;
  std::string bufcopy = bytes;
  bool arr = std::is_same<H, ArrHolder<typename P::T>>::value;
  restore("deserialize", [&] { u = checkpoint::deserialize<H>(&bufcopy[0]); }, false);
  judge(*u, "restored from memory", arr);
  if (s.draw(2)) {
    std::istringstream is(bytes);
    std::unique_ptr<H> v;
    restore("deserializeFromStream", [&] { v = checkpoint::deserializeFromStream<H>(static_cast<std::istream&>(is)); }, false);
    judge(*v, "restored from a stream", arr);
  }
  if constexpr (P::inPlace) {
    std::vector<int> ps;
    for (size_t i = s.draw(9); i > 0; i--) ps.push_back(int(s.draw(1000)));
    g_watch = false;
    auto t = P::make(ps);
    g_watch = true;
    restore("deserializeInPlace", [&] { checkpoint::deserializeInPlace<H>(&bufcopy[0], t.get()); }, true);
    judge(*t, "restored in place", true);
  }
}
template <typename P> void unit(char const* name) { pbt::addUnit(name, [](pbt::Src& s, pbt::Ctx& c) { test<P>(s, c); }); }
}  // namespace c08
