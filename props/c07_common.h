// C07: the visit log and the generic test of a holder of polymorphic objects.
#pragma once
#include "values.h"
#include <checkpoint/checkpoint.h>
#include <fstream>
#include <sstream>

namespace c07 {
struct Init {};
struct Ev { char mode; int layer; };
inline std::vector<Ev> g_log;
template <typename S> char modeOf(S& s) { return s.isSizing() ? 'z' : s.isPacking() ? 'p' : s.isUnpacking() ? 'u' : s.isFootprinting() ? 'f' : '?'; }
template <typename S> void log(S& s, int layer) { g_log.push_back({modeOf(s), layer}); }

template <typename P> void outp(std::string& o, P const& p) { if (p) p->out(o); else o += '-'; o += ','; }
template <typename P> void expp(std::vector<int>& e, P const& p) { if (p) p->expect(e); }
template <typename K> void key(std::string& o, K const& k) { pbt::put(o, k); o += '='; }
template <typename K> void key(std::vector<int>&, K const&) {}

// documented ways of serializing raw and shared pointers
template <typename S, typename T> void raw(S& s, T*& p) {
  bool null = p == nullptr;
  s | null;
  if (s.isUnpacking()) { delete p; p = nullptr; }
  if (null) return;
  T* t = p;
  checkpoint::reconstructPointedToObjectIfNeeded(s, t);
  p = t;
  s | *p;
}
template <typename S, typename T> void shared(S& s, std::shared_ptr<T>& p) {
  bool null = p == nullptr;
  s | null;
  if (s.isUnpacking()) p.reset();
  if (null) return;
  T* t = p.get();
  checkpoint::reconstructPointedToObjectIfNeeded(s, t);
  if (s.isUnpacking()) p.reset(t);
  s | *p;
}

template <typename T> void outAny(std::string& o, T const& t) { t.pbt_put(o); }
template <typename P> void outAny(std::string& o, std::unique_ptr<P> const& t) { outp(o, t); }
template <typename P> void outAny(std::string& o, std::vector<std::unique_ptr<P>> const& t) { for (auto& x : t) outp(o, x); }
template <typename T> auto expAny(std::vector<int>& e, T const& t) -> decltype(t.expect(e)) { t.expect(e); }
template <typename P> void expAny(std::vector<int>& e, std::unique_ptr<P> const& t) { expp(e, t); }
template <typename P> void expAny(std::vector<int>& e, std::vector<std::unique_ptr<P>> const& t) { for (auto& x : t) expp(e, x); }

template <typename T> auto footAll(int) -> decltype(T::footAll) { return T::footAll; }
template <typename T> bool footAll(long) { return true; }

inline std::string show(std::vector<int> const& v) { std::string o; for (int x : v) { o += std::to_string(x); o += ' '; } return o; }

// every pass of the operation visited the layers in the expected order; `modes` lists the passes that must have happened
inline void passes(char const* what, std::vector<int> const& want, char const* modes) {
  for (char m : std::string("zpuf?")) {
    std::vector<int> got;
    for (auto& e : g_log) if (e.mode == m) got.push_back(e.layer);
    bool need = strchr(modes, m) != nullptr;
    if (!need) { PBT_CHECK(got.empty() || m == 'z', "%s ran a pass in mode %c", what, m); }
    if (!need && got.empty()) continue;
    std::vector<int> w = want;
    if (m == 'z') while (w.size() < got.size() && !want.empty()) w.insert(w.end(), want.begin(), want.end());   // the size may be asked for more than once
    PBT_CHECK(got == w, "%s visited layers in mode %c: %s instead of %s", what, m, show(got).c_str(), show(w).c_str());
  }
  g_log.clear();
}

template <typename T> void test(T& v, std::function<std::string(T const&)> text, std::vector<int> const& want, pbt::Src& s, pbt::Ctx& c) {
  std::string rep = text(v);
  c.nontrivial(want.size() >= 3);
  c.label(want.size() >= 12 ? "12 or more layers visited" : want.size() >= 3 ? "3-11 layers visited" : "fewer than 3 layers");
  c.note(pbt::clip(rep, 400));
  auto same = [&](T const& t, char const* how) { std::string g = text(t); PBT_CHECK(g == rep, "%s: %s", how, pbt::firstDiff(rep, g).c_str()); };
  g_log.clear();
  size_t n = checkpoint::getSize<T>(v);
  passes("getSize", want, "z");
  auto r = checkpoint::serialize<T>(v);
  passes("serialize", want, "zp");
  std::string bytes(r->getBuffer(), r->getSize());
  PBT_CHECK(bytes.size() == n, "size %zu but %zu bytes packed", n, bytes.size());
  switch (s.draw(3)) {
  case 0: {
    checkpoint::getMemoryFootprint<T>(v);
    if (footAll<T>(0)) passes("getMemoryFootprint", want, "f");
    g_log.clear();
    break;
  }
  case 1: {
    std::ostringstream os;
    checkpoint::serializeToStream<T>(v, static_cast<std::ostream&>(os));
    passes("serializeToStream", want, "p");
    PBT_CHECK(os.str() == bytes, "bytes on a stream differ from those in memory: %s", pbt::firstDiff(bytes, os.str()).c_str());
    std::istringstream is(bytes);
    auto u = checkpoint::deserializeFromStream<T>(static_cast<std::istream&>(is));
    passes("deserializeFromStream", want, "u");
    same(*u, "restored from a stream");
    break;
  }
  default: {
    std::string f = pbt::scratchDir() + "/c07.ckpt";
    checkpoint::serializeToFile<T>(v, f);
    passes("serializeToFile", want, "zp");
    auto u = checkpoint::deserializeFromFile<T>(f);
    passes("deserializeFromFile", want, "u");
    same(*u, "restored from a file");
    remove(f.c_str());
  }
  }
  char* buf = (char*)malloc(bytes.size() ? bytes.size() : 1);
  struct Free { char* p; ~Free() { free(p); } } fr{buf};
  memcpy(buf, bytes.data(), bytes.size());
  auto u = checkpoint::deserialize<T>(buf);
  passes("deserialize", want, "u");
  same(*u, "restored from memory");
  same(v, "the source afterwards");
  // the restored object behaves like the original: it serializes to the same passes
  auto r2 = checkpoint::serialize<T>(*u);
  std::vector<int> want2;          // an unordered container may have another order now
  expAny(want2, *u);
  passes("serialize of the restored object", want2, "zp");
}

template <typename T, typename F> void unit(char const* name, unsigned weight, F mk) {
  pbt::addUnit(name, [mk](pbt::Src& s, pbt::Ctx& c) {
    s.budget = s.draw(3) ? 12 : 60;
    T v{};
    mk(v, s);
    std::vector<int> want;
    expAny(want, v);
    test<T>(v, [](T const& t) { std::string o; outAny(o, t); return o; }, want, s, c);
  }, weight);
}
template <typename T> void unitValue(char const* name) {
  pbt::addUnit(name, [](pbt::Src& s, pbt::Ctx& c) {
    s.budget = 30;
    T v{Init{}};
    v.fill(s, 2);
    std::vector<int> want;
    v.expect(want);
    test<T>(v, [](T const& t) { std::string o; t.out(o); return o; }, want, s, c);
  });
}
}  // namespace c07
